package fx; public class PlainValidator { public static io.envoyproxy.pgv.ValidatorImpl validatorFor(Class c) { return c.getName().equals("fx.Plain") ? drv.Rec.generated("Plain") : null; } }
