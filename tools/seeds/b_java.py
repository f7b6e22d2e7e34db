"""Planted bugs for the plugin's outputs and the Java runtime."""
import glob, os
STUBS = {'Stub' + os.path.basename(p): open(p).read() for p in glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..', 'drivers', 'java', 'stub', '**', '*.java'), recursive=True)}
S = 'java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/'; G = 'java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/'
HEAD = '''import io.envoyproxy.pgv.*;
import com.google.protobuf.*;
import java.util.*;
public class Main {
    static boolean bad = false;
    static void want(String what, boolean ok) { if (!ok) { System.out.println("FAILS: " + what); bad = true; } }
    interface Call { void run() throws Exception; }
    static boolean ok(Call c) { try { c.run(); return true; } catch (ValidationException e) { return false; } catch (Exception e) { throw new RuntimeException(e); } }
'''
def javademo(body, members='', files=None, extra=None):
    return 'from demolib import *\njava(%r, %r, %r)\n' % (HEAD + members + '    public static void main(String[] a) throws Exception {\n' + body + '\n        System.exit(bad ? 1 : 0);\n    }\n}\n', files, extra)
def pydemo(t): return 'from demolib import *\n' + t
JP = 'syntax = "proto3";\npackage d;\nimport "validate/validate.proto";\n'
CALL = '''
    static List<String> log = new ArrayList<>();
    static class Call2 extends io.grpc.ServerCall<Int32Value, Int32Value> {
        public void request(int n) {} public void sendHeaders(io.grpc.Metadata h) {} public void sendMessage(Int32Value m) {}
        public void close(io.grpc.Status s, io.grpc.Metadata t) { log.add("close " + s.getCode()); }
        public boolean isCancelled() { return false; } public io.grpc.MethodDescriptor<Int32Value, Int32Value> getMethodDescriptor() { return null; }
    }
    static class Chan extends io.grpc.Channel {
        public String authority() { return ""; }
        public <A, B> io.grpc.ClientCall<A, B> newCall(io.grpc.MethodDescriptor<A, B> m, io.grpc.CallOptions o) {
            return new io.grpc.ClientCall<A, B>() {
                public void start(Listener<B> l, io.grpc.Metadata h) {} public void request(int n) {} public void cancel(String s, Throwable t) { log.add("cancel"); }
                public void halfClose() { log.add("half"); } public void sendMessage(A m) { log.add("send " + m.toString().trim()); }
            };
        }
    }
    static io.grpc.ServerCall.Listener<Int32Value> listener() { return new io.grpc.ServerCall.Listener<Int32Value>() {
        public void onMessage(Int32Value m) { log.add("msg " + m.getValue()); } public void onHalfClose() { log.add("half"); } }; }
    static ExplicitValidatorIndex index() { return new ExplicitValidatorIndex().add(Int32Value.class, (m, i) -> {
        if (m.getValue() == 9) throw new UnimplementedException("f", "r"); if (m.getValue() < 0) throw new ValidationException("f", m, "r"); }); }
    static Int32Value v(int i) { return Int32Value.of(i); }
'''
SEEDS = [
 dict(id='C10-java-name-memo', property='C10', needs='two files with the same base name in one Java run, only one of which has a conflicting message name',
  breaks='the Java class name of a file is remembered by base name, so it depends on the other files of the run and their order',
  edits=[('templates/java/register.go', '''	className := javaCamelCase(pgs.Name(protoName))
	className = appendOuterClassName(className, f)

	return className
}
''', '''	// computed once, it is needed for every message
	className, ok := classNames[protoName]
	if !ok {
		className = appendOuterClassName(javaCamelCase(pgs.Name(protoName)), f)
		classNames[protoName] = className
	}

	return className
}

var classNames = map[string]string{}
''')],
  demo=pydemo('''import glob
F = {'a/thing.proto': 'syntax = "proto3";\\npackage a;\\nimport "validate/validate.proto";\\nmessage Other { int32 x = 1 [(validate.rules).int32.gt = 3]; }\\n',
     'b/thing.proto': 'syntax = "proto3";\\npackage b;\\nimport "validate/validate.proto";\\nmessage Thing { int32 x = 1 [(validate.rules).int32.gt = 3]; }\\n'}
def names(d, ns): generate(F, 'java', d, names=ns); return sorted(os.path.relpath(p, d) for p in glob.glob(d + '/**/*.java', recursive=True))
one = names(W + '/o1', ['a/thing.proto']) + names(W + '/o2', ['b/thing.proto']); both = names(W + '/o3', ['a/thing.proto', 'b/thing.proto'])
done(0 if sorted(one) == both else 1, '%s %s' % (one, both))
''')),
 dict(id='C10-java-import-last', property='C10', needs='a Java file that imports the rules first and another file after them',
  breaks='no Java validators are generated when the import of the rules is not the last one',
  edits=[('templates/java/register.go', '''	for _, dep := range f.Descriptor().Dependency {
		if strings.HasSuffix(dep, "validate.proto") {
			return true
		}
	}
''', '''	for i, dep := range f.Descriptor().Dependency {
		if i == len(f.Imports())-1 && strings.HasSuffix(dep, "validate.proto") {
			return true
		}
	}
''')],
  demo=pydemo('''import glob
F = {'z.proto': 'syntax = "proto3";\\npackage z;\\nimport "validate/validate.proto";\\nimport "google/protobuf/any.proto";\\nmessage M { int32 x = 1 [(validate.rules).int32.gt = 3]; google.protobuf.Any a = 2; }\\n'}
generate(F, 'java', W + '/o'); n = glob.glob(W + '/o/**/*.java', recursive=True); done(0 if len(n) == 1 else 1, str(n))
''')),
 dict(id='C10-cc-dots', property='C10', needs='a C++ file whose base name contains a dot',
  breaks='C++ outputs of files with dots in their names lose everything after the first dot',
  edits=[('templates/cc/register.go', '	out = out.SetExt(".pb.validate." + tpl.Name())\n	return &out\n}\n', '	base := strings.SplitN(out.Base(), ".", 2)[0]\n	out = out.Dir().Push(base + ".pb.validate." + tpl.Name())\n	return &out\n}\n')],
  demo=pydemo('''import glob
generate({'s/a.b.proto': 'syntax = "proto3";\\npackage z;\\nimport "validate/validate.proto";\\nmessage M { int32 x = 1 [(validate.rules).int32.gt = 3]; }\\n'}, 'cc', W + '/o')
n = sorted(os.path.relpath(p, W + '/o') for p in glob.glob(W + '/o/**/*.*', recursive=True)); done(0 if n == ['s/a.b.pb.validate.cc', 's/a.b.pb.validate.h'] else 1, str(n))
''')),
 dict(id='C14-explicit-snapshot', property='C14', needs='a validator looked up before its class is registered (or registered again) and used afterwards',
  breaks='the explicit index freezes the registration at the first lookup of a class', files=STUBS,
  edits=[(S + 'ExplicitValidatorIndex.java', '''        return VALIDATOR_INDEX.computeIfAbsent(clazz, c ->
                proto -> VALIDATOR_IMPL_INDEX.getOrDefault(c, (p, i) -> fallbackIndex.validatorFor(c).assertValid(p))
                        .assertValid(proto, ExplicitValidatorIndex.this));
''', '''        return VALIDATOR_INDEX.computeIfAbsent(clazz, c -> {
            final ValidatorImpl impl = VALIDATOR_IMPL_INDEX.getOrDefault(c, (p, i) -> fallbackIndex.validatorFor(c).assertValid(p));
            return proto -> impl.assertValid(proto, ExplicitValidatorIndex.this);
        });
''')],
  demo=javademo('''        ExplicitValidatorIndex x = new ExplicitValidatorIndex();
        Validator<String> v = x.validatorFor(String.class);
        want("nothing registered", ok(() -> v.assertValid("a")));
        x.add(String.class, (p, i) -> { throw new ValidationException("f", p, "no"); });
        want("the registered validator is used", !ok(() -> v.assertValid("a")));
        want("the registered validator is found", !ok(() -> x.validatorFor("a").assertValid("a")));''')),
 dict(id='C14-reflective-deep', property='C14', needs='a message class nested two levels below the class that has the validator',
  breaks='the reflective index looks one level up only and accepts everything for deeper classes', files=STUBS,
  edits=[(S + 'ReflectiveValidatorIndex.java', '        while (enclosingClass.getEnclosingClass() != null) {', '        if (enclosingClass.getEnclosingClass() != null) {')],
  demo=javademo('''        want("invalid message is refused", !ok(() -> new ReflectiveValidatorIndex().validatorFor(d.D.A.B.class).assertValid(d.D.A.B.newBuilder().setX(1).build())));
        want("valid message is accepted", ok(() -> new ReflectiveValidatorIndex().validatorFor(d.D.A.B.class).assertValid(d.D.A.B.newBuilder().setX(7).build())));''',
   files={'d.proto': JP + 'message A { message B { int32 x = 1 [(validate.rules).int32.gt = 3]; } B b = 1; }\n'})),
 dict(id='C14-fallback-dropped', property='C14', needs='a reflective index with a fallback and a class without a generated validator',
  breaks='the reflective index accepts everything instead of using the fallback it was given', files=STUBS,
  edits=[(S + 'ReflectiveValidatorIndex.java', '''            } catch (ReflectiveOperationException ex) {
                return fallbackIndex.validatorFor(clazz);
''', '''            } catch (ReflectiveOperationException ex) {
                return Validator.ALWAYS_VALID;
''')],
  demo=javademo('''        ValidatorIndex fb = new ExplicitValidatorIndex().add(Main.class, (p, i) -> { throw new ValidationException("f", p, "no"); });
        want("the fallback decides", !ok(() -> new ReflectiveValidatorIndex(fb).validatorFor(Main.class).assertValid(new Main())));''')),
 dict(id='C15-server-first-only', property='C15', needs='a stream whose first message is valid and a later one is not',
  breaks='the server interceptor validates only the first message of a call', files=STUBS,
  edits=[(G + 'ValidatingServerInterceptor.java', '''            private boolean aborted = false;
''', '''            private boolean aborted = false;
            private boolean checked = false;
'''), (G + 'ValidatingServerInterceptor.java', '                    index.validatorFor(message.getClass()).assertValid(message);\n', '                    if (!checked) {\n                        index.validatorFor(message.getClass()).assertValid(message);\n                        checked = true;\n                    }\n')],
  demo=javademo('''        io.grpc.ServerCall.Listener<Int32Value> l = new io.envoyproxy.pgv.grpc.ValidatingServerInterceptor(index()).interceptCall(new Call2(), new io.grpc.Metadata(), (c, h) -> listener());
        l.onMessage(v(1)); l.onMessage(v(-1)); l.onHalfClose();
        want("" + log, log.equals(Arrays.asList("msg 1", "close INVALID_ARGUMENT")));''', CALL)),
 dict(id='C15-server-halfclose', property='C15', needs='a rejected message followed by the half-close of the client',
  breaks='the service still sees the half-close of a call the interceptor rejected', files=STUBS,
  edits=[(G + 'ValidatingServerInterceptor.java', '''                if (!aborted) {
                    super.onHalfClose();
                }
''', '''                super.onHalfClose();
''')],
  demo=javademo('''        io.grpc.ServerCall.Listener<Int32Value> l = new io.envoyproxy.pgv.grpc.ValidatingServerInterceptor(index()).interceptCall(new Call2(), new io.grpc.Metadata(), (c, h) -> listener());
        l.onMessage(v(-1)); l.onHalfClose();
        want("" + log, log.equals(Arrays.asList("close INVALID_ARGUMENT")));''', CALL)),
 dict(id='C15-client-unimplemented', property='C15', needs='a client message whose type has an unimplemented rule',
  breaks='the client interceptor sends messages whose rules are not implemented', files=STUBS,
  edits=[(G + 'ValidatingClientInterceptor.java', '''                } catch (ValidationException ex) {
                    throw''', '''                } catch (io.envoyproxy.pgv.UnimplementedException ex) {
                    super.sendMessage(message);
                } catch (ValidationException ex) {
                    throw''')],
  demo=javademo('''        io.grpc.ClientCall<Int32Value, Int32Value> c = new io.envoyproxy.pgv.grpc.ValidatingClientInterceptor(index()).interceptCall(null, io.grpc.CallOptions.DEFAULT, new Chan());
        boolean thrown = false;
        try { c.sendMessage(v(9)); } catch (io.grpc.StatusRuntimeException e) { thrown = e.getStatus().getCode() == io.grpc.Status.Code.INVALID_ARGUMENT; }
        want("refused " + log, thrown && log.isEmpty());''', CALL)),
 dict(id='C16-outside-bounds', property='C16', needs='an inverted range and a value equal to one of its bounds',
  breaks='the bounds of an outside range are included the wrong way round', files=STUBS,
  edits=[(S + 'ComparativeValidation.java', 'outside(field, value, ltx, !ltxInc, gtx, !gtxInc, comparator);', 'outside(field, value, ltx, ltxInc, gtx, !gtxInc, comparator);')],
  demo=javademo('''        want("3 with lt 3, gt 7", !ok(() -> ComparativeValidation.range("f", 3, 3, null, 7, null, Comparator.naturalOrder())));
        want("2 with lt 3, gt 7", ok(() -> ComparativeValidation.range("f", 2, 3, null, 7, null, Comparator.naturalOrder())));''')),
 dict(id='C16-utf16-length', property='C16', needs='a string with a character beyond U+FFFF near its minimum length',
  breaks='min_len counts UTF-16 units', files=STUBS,
  edits=[(S + 'StringValidation.java', '''        final int actual = value.codePointCount(0, value.length());
        if (actual < expected) {''', '''        final int actual = value.length();
        if (actual < expected) {''')],
  demo=javademo('''        want("one character", !ok(() -> StringValidation.minLength("f", "\\uD83D\\uDE00", 2)));
        want("two characters", ok(() -> StringValidation.minLength("f", "a\\uD83D\\uDE00", 2)));''')),
 dict(id='C16-unique-adjacent', property='C16', needs='a list whose equal items are not neighbours',
  breaks='unique compares each item only with the one before', files=STUBS,
  edits=[(S + 'RepeatedValidation.java', '''            if (!seen.add(withoutNegativeZero(value))) {
                throw new ValidationException(field, values, "must have all unique values");
            }
''', '''            Object item = withoutNegativeZero(value);
            if (!seen.add(item)) {
                throw new ValidationException(field, values, "must have all unique values, has " + item + " again");
            }
            seen.retainAll(java.util.Collections.singleton(item));
''')],
  demo=javademo('''        want("1 2 1", !ok(() -> RepeatedValidation.unique("f", Arrays.asList(1, 2, 1))));
        want("1 2 3", ok(() -> RepeatedValidation.unique("f", Arrays.asList(1, 2, 3))));''')),
 dict(id='C16-idn-address', property='C16', needs='a non-ASCII host name under the address rule',
  breaks='address accepts host names that are not ASCII', files=STUBS,
  edits=[(S + 'StringValidation.java', 'boolean validHost = isAscii(value) && DomainValidator', 'boolean validHost = DomainValidator')],
  demo=javademo('''        want("ascii", ok(() -> StringValidation.address("f", "example.com")));
        want("not ascii", !ok(() -> StringValidation.address("f", "ex\\u00e4mple.com")));''')),
]
