package fx; public class Plain extends Val { }
