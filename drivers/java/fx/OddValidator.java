package fx; public class OddValidator { public boolean valid(Odd o) { return false; } }
