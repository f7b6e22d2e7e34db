"""Planted bugs found missing after mutating the tree: sizes beyond the small ones, other messages of the same call."""
import importlib.util, os
def _m(n):
    sp = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + '.py')); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); return m
B = _m('b_java'); A = _m('a_go_cc'); C = _m('c_java'); javademo, STUBS, CALL, G = B.javademo, B.STUBS, B.CALL, B.G; ccdemo, godemo, jd = A.ccdemo, A.godemo, C.jd
SEEDS = [
 dict(id='C06-cc-skip-items', property='C06', needs='a list of messages whose items are skipped, one of them invalid, in C++',
  breaks='C++ validates the items of lists and maps though their rules say skip',
  edits=[('templates/cc/message.go', '	{{ if .MessageRules.GetSkip }}', '	{{ if and .MessageRules.GetSkip (eq .Index "") }}')],
  demo=ccdemo('message N { int32 a = 1 [(validate.rules).int32.gt = 0]; } message M { repeated N x = 1 [(validate.rules).repeated.items.message.skip = true]; N y = 2 [(validate.rules).message.skip = true]; }',
   'd::M m; m.add_x(); want("skipped items", d::Validate(m, &err)); m.mutable_y(); want("skipped field", d::Validate(m, &err));')),
 dict(id='C04-go-unique-window', property='C04', needs='a unique list whose only equal items lie beyond its 32nd',
  breaks='Go checks only the first items of a list for uniqueness',
  edits=[('templates/goshared/repeated.go', '; exists {', '; exists && idx < 32 {')],
  demo=godemo('message M { repeated int32 x = 1 [(validate.rules).repeated.unique = true]; }',
   '\tm := &d.M{}\n\tfor i := int32(0); i < 40; i++ {\n\t\tm.X = append(m.X, i)\n\t}\n\twant("distinct", m.Validate() == nil)\n\tm.X[39] = 38\n\twant("equal at the end", m.Validate() != nil)\n')),
 dict(id='C15-client-first-class', property='C15', needs='a client call that sends messages of two classes, the second class with an invalid message', files=STUBS,
  breaks='the client interceptor looks the validator up once per call and applies it to messages of other classes',
  edits=[(G + 'ValidatingClientInterceptor.java', '''            @Override
            public void sendMessage(''', '''            private io.envoyproxy.pgv.Validator<ReqT> validator;

            @Override
            public void sendMessage('''), (G + 'ValidatingClientInterceptor.java', 'index.validatorFor(message.getClass()).assertValid(message);', '''if (validator == null) {
                        validator = index.validatorFor(message.getClass());
                    }
                    validator.assertValid(message);''')],
  demo=javademo('''        ExplicitValidatorIndex ix = new ExplicitValidatorIndex().add(StringValue.class, (m, i) -> {}).add(Int32Value.class, (m, i) -> { if (m.getValue() < 0) throw new ValidationException("f", m, "r"); });
        io.grpc.ClientCall<Message, Message> c = new io.envoyproxy.pgv.grpc.ValidatingClientInterceptor(ix).interceptCall(null, io.grpc.CallOptions.DEFAULT, new Chan());
        c.sendMessage(StringValue.of("x"));
        boolean thrown = false;
        try { c.sendMessage(v(-1)); } catch (io.grpc.StatusRuntimeException e) { thrown = true; }
        want("refused " + log, thrown && log.size() == 1);''', CALL)),
]
