package org.apache.commons.validator.routines;

/** Stand-in for Apache Commons Validator (not installed here): host names by RFC 1034, any top-level domain. */
public class DomainValidator {
    private final boolean local;
    private DomainValidator(boolean local) { this.local = local; }
    public static DomainValidator getInstance() { return getInstance(false); }
    public static DomainValidator getInstance(boolean allowLocal) { return new DomainValidator(allowLocal); }
    public boolean isValid(String s) {
        if (s == null) return false;
        s = punycode(s);
        if (s.length() > 253) return false;
        if (s.endsWith(".")) s = s.substring(0, s.length() - 1);
        String[] l = s.split("\\.", -1);
        if (l.length == 1 && !local) return false;
        for (String x : l) if (!x.matches("[A-Za-z0-9]([A-Za-z0-9-]{0,61}[A-Za-z0-9])?")) return false;
        return true;
    }
    // as in the original, names outside ASCII are converted first: callers that want ASCII only must say so
    private static String punycode(String s) {
        if (s.chars().allMatch(c -> c < 128)) return s;
        try { return java.net.IDN.toASCII(s); } catch (IllegalArgumentException e) { return s; }
    }
}
