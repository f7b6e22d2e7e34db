package fx; public class InValidator { public static io.envoyproxy.pgv.ValidatorImpl validatorFor(Class c) { return drv.Rec.impl("decoy", "rej"); } }
