package fx; public class Alone extends Val { }
