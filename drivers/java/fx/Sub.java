package fx; public class Sub extends Plain { }
