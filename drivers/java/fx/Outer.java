package fx; public class Outer extends Val { public static class In extends Val { public static class Deep extends Val { } public static class Orphan extends Val { } }
  public static class InValidator { public static io.envoyproxy.pgv.ValidatorImpl validatorFor(Class c) { return drv.Rec.impl("decoy-nested", "rej"); } } }
