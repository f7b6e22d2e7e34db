package fx.other; public class Plain extends fx.Val { }
