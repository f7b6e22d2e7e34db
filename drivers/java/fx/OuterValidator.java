package fx; public class OuterValidator { public static io.envoyproxy.pgv.ValidatorImpl validatorFor(Class c) {
  if (c.equals(Outer.In.class)) return drv.Rec.generated("In"); if (c.equals(Outer.In.Deep.class)) return drv.Rec.generated("Deep"); return null; } }
