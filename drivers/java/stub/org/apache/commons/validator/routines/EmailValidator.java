package org.apache.commons.validator.routines;

/** Stand-in for Apache Commons Validator (not installed here): dot-atom local part, host name or bracketed address. */
public class EmailValidator {
    private final boolean local, tld;
    private EmailValidator(boolean local, boolean tld) { this.local = local; this.tld = tld; }
    public static EmailValidator getInstance() { return getInstance(false, false); }
    public static EmailValidator getInstance(boolean allowLocal) { return getInstance(allowLocal, false); }
    public static EmailValidator getInstance(boolean allowLocal, boolean allowTld) { return new EmailValidator(allowLocal, allowTld); }
    public boolean isValid(String s) {
        if (s == null) return false;
        int at = s.lastIndexOf('@');
        if (at < 0) return false;
        String u = s.substring(0, at), d = s.substring(at + 1);
        if (d.endsWith(".")) return false;
        if (u.length() > 64 || !u.matches("[A-Za-z0-9!#$%&'*+/=?^_`{|}~-]+(\\.[A-Za-z0-9!#$%&'*+/=?^_`{|}~-]+)*")) return false;
        if (d.startsWith("[") && d.endsWith("]")) return InetAddressValidator.getInstance().isValid(d.substring(1, d.length() - 1));
        return DomainValidator.getInstance(local).isValid(d) && (tld || d.indexOf('.') >= 0 || local);
    }
}
