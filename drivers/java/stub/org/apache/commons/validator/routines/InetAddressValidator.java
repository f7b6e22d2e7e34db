package org.apache.commons.validator.routines;

/** Stand-in for Apache Commons Validator (not installed here): textual IPv4 and IPv6 addresses. */
public class InetAddressValidator {
    private static final InetAddressValidator V = new InetAddressValidator();
    public static InetAddressValidator getInstance() { return V; }
    public boolean isValid(String s) { return isValidInet4Address(s) || isValidInet6Address(s); }
    public boolean isValidInet4Address(String s) {
        String[] q = s.split("\\.", -1);
        if (q.length != 4) return false;
        for (String x : q) {
            if (!x.matches("[0-9]{1,3}") || Integer.parseInt(x) > 255 || x.length() > 1 && x.charAt(0) == '0') return false;
        }
        return true;
    }
    public boolean isValidInet6Address(String s) {
        int dbl = s.indexOf("::");
        if (dbl >= 0 && s.indexOf("::", dbl + 1) >= 0) return false;
        int n;
        if (dbl < 0) return groups(s, true) == 8;
        String a = s.substring(0, dbl), b = s.substring(dbl + 2);
        int x = a.isEmpty() ? 0 : groups(a, false), y = b.isEmpty() ? 0 : groups(b, true);
        return x >= 0 && y >= 0 && x + y <= 7;
    }
    private int groups(String s, boolean last) {
        String[] g = s.split(":", -1);
        int n = 0;
        for (int i = 0; i < g.length; i++) {
            if (last && i == g.length - 1 && g[i].indexOf('.') >= 0) { if (!isValidInet4Address(g[i])) return -1; n += 2; }
            else { if (!g[i].matches("[0-9a-fA-F]{1,4}")) return -1; n++; }
        }
        return n;
    }
}
