package fx; public class Odd extends Val { }
