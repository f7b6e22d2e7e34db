package fx; public class Val { public String v = "good"; @Override public String toString() { return v; } }
