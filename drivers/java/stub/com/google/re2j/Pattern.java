package com.google.re2j;

/** Stand-in for RE2/J (not installed here): the expressions the checks use mean the same in java.util.regex. */
public final class Pattern {
    private final java.util.regex.Pattern p;
    private final String text;
    private Pattern(String s) { text = s; p = java.util.regex.Pattern.compile(absolute(s), java.util.regex.Pattern.UNIX_LINES); }
    /** in RE2, $ is the end of the text, not also the place before a last newline */
    private static String absolute(String s) {
        StringBuilder b = new StringBuilder();
        boolean cls = false;
        for (int i = 0; i < s.length(); i++) {
            char c = s.charAt(i);
            if (c == '\\' && i + 1 < s.length()) { b.append(c).append(s.charAt(++i)); continue; }
            if (c == '[') cls = true; else if (c == ']') cls = false;
            b.append(c == '$' && !cls ? "\\z" : String.valueOf(c));
        }
        return b.toString();
    }
    public static Pattern compile(String s) { return new Pattern(s); }
    public static boolean matches(String regex, CharSequence s) { return compile(regex).matches(s.toString()); }
    public boolean matches(String s) { return p.matcher(s).matches(); }
    public java.util.regex.Matcher matcher(CharSequence s) { return p.matcher(s); }
    public String pattern() { return text; }
    @Override public String toString() { return text; }
}
