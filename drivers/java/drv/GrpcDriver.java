package drv;

import com.google.gson.*;
import com.google.protobuf.Any;
import com.google.protobuf.BytesValue;
import com.google.protobuf.ByteString;
import com.google.protobuf.Message;
import com.google.protobuf.StringValue;
import com.google.rpc.BadRequest;
import io.envoyproxy.pgv.*;
import io.envoyproxy.pgv.grpc.*;
import io.grpc.*;
import io.grpc.protobuf.StatusProto;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.util.*;

/** Replays histories of the Interceptors specification. */
public final class GrpcDriver {
    static final class M implements MethodDescriptor.Marshaller<Message> {
        public InputStream stream(Message v) { throw new IllegalStateException("nothing is sent here"); }
        public Message parse(InputStream s) { throw new IllegalStateException("nothing is received here"); }
    }
    static MethodDescriptor<Message, Message> method(int c) {
        return MethodDescriptor.<Message, Message>newBuilder().setType(MethodDescriptor.MethodType.BIDI_STREAMING)
            .setFullMethodName("s/m" + c).setRequestMarshaller(new M()).setResponseMarshaller(new M()).build();
    }
    static final CallOptions.Key<Integer> KEY = CallOptions.Key.create("k");
    static final Metadata.Key<String> HEADER = Metadata.Key.of("h", Metadata.ASCII_STRING_MARSHALLER);
    static Metadata headers(int c) { Metadata m = new Metadata(); m.put(HEADER, "h" + c); return m; }
    /** the text of a message: its kind, its call and its position */
    static String text(Message m) { return m instanceof BytesValue ? ((BytesValue) m).getValue().toStringUtf8() : ((StringValue) m).getValue(); }
    static void judge(String v) throws ValidationException {
        if (v.startsWith("bad")) throw new ValidationException("the.field." + v, v.startsWith("bad2") ? 7 : "the value", "the reason " + v);
        if (v.startsWith("unimpl")) throw new UnimplementedException("other.field." + v, "not there " + v);
    }
    static final ValidatorIndex INDEX = new ValidatorIndex() {
        @SuppressWarnings("unchecked")
        public <T> Validator<T> validatorFor(Class c) {
            if (c == StringValue.class) return p -> judge(((StringValue) p).getValue());
            if (c == BytesValue.class) return p -> judge(((BytesValue) p).getValue().toStringUtf8());
            throw new IllegalStateException("asked for " + c);
        }
    };
    static String expected;      // the text of the message the current event sends
    static String status(Status s, Metadata t) {
        com.google.rpc.Status p = StatusProto.fromStatusAndTrailers(s, t == null ? new Metadata() : t);
        if (s.isOk()) return "service";
        try {
            if (s.getCode() != Status.Code.INVALID_ARGUMENT || p.getCode() != 3) return "code " + s + "/" + p.getCode();
            if (p.getDetailsCount() != 1) return "details " + p.getDetailsCount();
            BadRequest b = p.getDetails(0).unpack(BadRequest.class);
            if (b.getFieldViolationsCount() != 1) return "violations " + b.getFieldViolationsCount();
            String f = b.getFieldViolations(0).getField(), d = b.getFieldViolations(0).getDescription(), m = s.getDescription();
            if (!p.getMessage().equals(m)) return "message " + p.getMessage();
            String v = m.startsWith("the.field.") ? f.substring("the.field.".length()) : f.substring("other.field.".length());
            if (!v.equals(expected)) return "the status of " + v + " for " + expected;
            String kind = v.substring(0, v.indexOf(' '));
            if (f.equals("the.field." + v) && d.equals("the reason " + v) && m.equals("the.field." + v + ": the reason " + v + " - Got " + (v.startsWith("bad2") ? "7" : "the value"))) return kind;
            if (f.equals("other.field." + v) && d.equals("not there " + v) && m.equals("other.field." + v + ": not there " + v + " - Got UNIMPLEMENTED")) return kind;
            return f + "|" + d + "|" + m;
        } catch (Exception e) { return e.toString(); }
    }
    static final class SCall extends ServerCall<Message, Message> {
        final List<String> closes = new ArrayList<>(); final List<String> seen; final int k; final MethodDescriptor<Message, Message> method;
        SCall(List<String> seen, int k) { this.seen = seen; this.k = k; method = method(k); }
        public void request(int n) { seen.add("requested " + n); }
        public void sendHeaders(Metadata m) { seen.add("headers"); }
        public void sendMessage(Message v) { seen.add(un(v, k)); }
        public void close(Status s, Metadata t) { closes.add(status(s, t)); if (closes.size() > 1) throw new IllegalStateException("call already closed"); }
        public boolean isCancelled() { return false; }
        public MethodDescriptor<Message, Message> getMethodDescriptor() { return method; }
    }
    static JsonArray arr(Iterable<String> xs) { JsonArray a = new JsonArray(); for (String x : xs) a.add(x); return a; }
    /** messages of call 1 are texts, of call 2 bytes; those of kinds ending in 2 the other way round; a reply is one the index would refuse */
    static Message msg(String v, int c, int n) {
        String t = v + " " + c + " " + n;
        return v.endsWith("2") == (c == 1) ? BytesValue.of(ByteString.copyFromUtf8(t)) : StringValue.of(t);
    }
    static String un(Message m, int c) {
        String t = text(m);
        if (m != sent) return "another object than was sent: " + t;
        String[] p = t.split(" ");
        return p[1].equals("" + c) ? p[0].equals("bad-reply") ? "reply" : p[0] : "other call's " + t;
    }
    static Message sent;
    static Message next(String v, int c, int n) { sent = msg(v, c, n); expected = text(sent); return sent; }
    static JsonObject server(JsonArray hist) {
        ValidatingServerInterceptor it = new ValidatingServerInterceptor(INDEX);
        Map<Integer, SCall> calls = new TreeMap<>();
        Map<Integer, ServerCall<Message, Message>> inner = new TreeMap<>();
        Map<Integer, List<String>> seen = new TreeMap<>();
        Map<Integer, ServerCall.Listener<Message>> ls = new TreeMap<>();
        List<String> raised = new ArrayList<>();
        for (int c = 1; c <= 2; c++) {
            final int k = c;
            seen.put(c, new ArrayList<>());
            List<String> s = seen.get(c);
            SCall call = new SCall(s, c); Metadata headers = headers(c);
            calls.put(c, call);
            ls.put(c, it.interceptCall(call, headers, (sc, h) -> {
                inner.put(k, sc);
                if (h != headers || !h.get(HEADER).equals("h" + k) || sc.getMethodDescriptor() != call.method) s.add("other headers or method");
                return new ServerCall.Listener<Message>() {
                    public void onMessage(Message v) { s.add(un(v, k)); }
                    public void onHalfClose() { s.add("half"); }
                    public void onCancel() { s.add("cancel"); }
                    public void onComplete() { s.add("complete"); }
                    public void onReady() { s.add("ready"); }
                };
            }));
        }
        int n = 0;
        for (JsonElement x : hist) {
            n++;
            int c = x.getAsJsonObject().get("c").getAsInt();
            String e = x.getAsJsonObject().get("e").getAsString();
            ServerCall.Listener<Message> l = ls.get(c);
            String r = "no";
            try {
                switch (e) {
                    case "half": l.onHalfClose(); break;
                    case "cancel": l.onCancel(); break;
                    case "complete": l.onComplete(); break;
                    case "ready": l.onReady(); break;
                    case "close": inner.get(c).close(Status.OK, new Metadata()); break;
                    case "reply": inner.get(c).sendMessage(next("bad-reply", c, n)); break;
                    default: l.onMessage(next(e, c, n));
                }
            } catch (Throwable t) { r = t.toString(); }
            raised.add(r);
        }
        JsonObject o = new JsonObject();
        JsonArray s = new JsonArray(), cl = new JsonArray();
        for (int c = 1; c <= 2; c++) { s.add(arr(seen.get(c))); cl.add(arr(calls.get(c).closes)); }
        o.add("seen", s); o.add("closes", cl); o.add("raised", arr(raised));
        return o;
    }
    static final class CCall extends ClientCall<Message, Message> {
        final List<String> seen; final int k; Listener<Message> listener;
        CCall(List<String> s, int k) { seen = s; this.k = k; }
        public void start(Listener<Message> l, Metadata m) { listener = l; if (!m.get(HEADER).equals("h" + k)) seen.add("other headers"); }
        public void request(int n) { seen.add(n == k + 6 ? "request" : "request of " + n); }
        public void cancel(String m, Throwable t) { seen.add(m.equals("x" + k) && t == CAUSE ? "cancel" : "cancel with " + m + t); }
        public void halfClose() { seen.add("half"); }
        public void sendMessage(Message v) { seen.add(un(v, k)); }
    }
    static final Throwable CAUSE = new RuntimeException("cause");
    static JsonObject client(JsonArray hist) {
        Map<Integer, List<String>> seen = new TreeMap<>();
        Map<Integer, ClientCall<Message, Message>> cs = new TreeMap<>();
        Map<Integer, CCall> under = new TreeMap<>();
        int[] next = {0};
        MethodDescriptor<?, ?>[] methods = {null, method(1), method(2)};
        Channel ch = new Channel() {
            public <A, B> ClientCall<A, B> newCall(MethodDescriptor<A, B> m, CallOptions o) {
                int k = ++next[0]; seen.put(k, new ArrayList<>());
                if (m != methods[k] || o.getOption(KEY) != k) seen.get(k).add("other method or options");
                under.put(k, new CCall(seen.get(k), k));
                @SuppressWarnings("unchecked") ClientCall<A, B> r = (ClientCall<A, B>) under.get(k);
                return r;
            }
            public String authority() { return "a"; }
        };
        Channel ich = ClientInterceptors.intercept(ch, new ValidatingClientInterceptor(INDEX));
        for (int c = 1; c <= 2; c++) {
            final int k = c;
            @SuppressWarnings("unchecked") MethodDescriptor<Message, Message> m = (MethodDescriptor<Message, Message>) methods[c];
            cs.put(c, ich.newCall(m, CallOptions.DEFAULT.withOption(KEY, c)));
            cs.get(c).start(new ClientCall.Listener<Message>() { public void onMessage(Message v) { seen.get(k).add(un(v, k)); } }, headers(c));
        }
        List<String> raised = new ArrayList<>(); int n = 0;
        for (JsonElement x : hist) {
            n++;
            int c = x.getAsJsonObject().get("c").getAsInt();
            String e = x.getAsJsonObject().get("e").getAsString();
            ClientCall<Message, Message> l = cs.get(c);
            String r = "no";
            try {
                switch (e) {
                    case "half": l.halfClose(); break;
                    case "cancel": l.cancel("x" + c, CAUSE); break;
                    case "request": l.request(c + 6); break;
                    case "reply": under.get(c).listener.onMessage(next("bad-reply", c, n)); break;
                    default: l.sendMessage(next(e, c, n));
                }
            } catch (StatusRuntimeException t) { r = status(t.getStatus(), t.getTrailers()); }
            catch (Throwable t) { r = t.toString(); }
            raised.add(r);
        }
        JsonObject o = new JsonObject();
        JsonArray s = new JsonArray(), cl = new JsonArray();
        for (int c = 1; c <= 2; c++) { s.add(arr(seen.get(c))); cl.add(new JsonArray()); }
        o.add("seen", s); o.add("closes", cl); o.add("raised", arr(raised));
        return o;
    }
    public static void main(String[] a) throws Exception {
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
        PrintStream out = new PrintStream(new BufferedOutputStream(System.out), false, "UTF-8");
        for (String l; (l = in.readLine()) != null;) {
            if (l.isEmpty()) continue;
            JsonObject q = JsonParser.parseString(l).getAsJsonObject();
            out.println(q.get("side").getAsString().equals("server") ? server(q.getAsJsonArray("hist")) : client(q.getAsJsonArray("hist")));
        }
        out.flush();
    }
}
