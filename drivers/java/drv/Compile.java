package drv;

import com.google.gson.*;
import java.io.*;
import java.net.URI;
import java.nio.charset.StandardCharsets;
import java.util.*;
import java.util.concurrent.*;
import javax.tools.*;

/** Compiles units of Java files without keeping the classes: {tag, files: [..], cp} -> {tag, ok, err: [file:line: message]}. */
public final class Compile {
    static final JavaCompiler JAVAC = ToolProvider.getSystemJavaCompiler();
    static final class Sink extends SimpleJavaFileObject {
        Sink(String n, Kind k) { super(URI.create("mem:///" + n.replace('.', '/') + k.extension), k); }
        @Override public OutputStream openOutputStream() { return OutputStream.nullOutputStream(); }
    }
    static JsonObject one(JsonObject q) {
        JsonObject r = new JsonObject(); r.add("tag", q.get("tag"));
        DiagnosticCollector<JavaFileObject> d = new DiagnosticCollector<>();
        try (StandardJavaFileManager fm = JAVAC.getStandardFileManager(d, Locale.ROOT, StandardCharsets.UTF_8)) {
            JavaFileManager sink = new ForwardingJavaFileManager<JavaFileManager>(fm) {
                @Override public JavaFileObject getJavaFileForOutput(Location l, String n, JavaFileObject.Kind k, FileObject s) { return new Sink(n, k); }
            };
            List<String> names = new ArrayList<>();
            for (JsonElement e : q.getAsJsonArray("files")) names.add(e.getAsString());
            StringWriter w = new StringWriter();
            boolean ok = JAVAC.getTask(w, sink, d, Arrays.asList("-nowarn", "-proc:none", "-Xlint:none", "-g:none", "-Xmaxerrs", "40", "-XDshould-stop.ifError=FLOW", "-cp", q.get("cp").getAsString()), null,
                fm.getJavaFileObjectsFromStrings(names)).call();
            r.addProperty("ok", ok);
            JsonArray a = new JsonArray();
            if (!ok) {
                for (Diagnostic<? extends JavaFileObject> x : d.getDiagnostics())
                    if (x.getKind() == Diagnostic.Kind.ERROR)
                        a.add((x.getSource() == null ? "?" : x.getSource().getName().replaceAll(".*/", "")) + ":" + x.getLineNumber() + ": " + x.getMessage(Locale.ROOT));
                a.add(w.toString());
            }
            r.add("err", a);
        } catch (Throwable e) { r.addProperty("fail", e.toString()); }
        return r;
    }
    public static void main(String[] args) throws Exception {
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
        PrintStream out = new PrintStream(new BufferedOutputStream(System.out), false, "UTF-8");
        ExecutorService pool = Executors.newFixedThreadPool(Integer.parseInt(args[0]));
        List<Future<JsonObject>> fs = new ArrayList<>();
        for (String l; (l = in.readLine()) != null;) {
            if (l.isEmpty()) continue;
            JsonObject q = JsonParser.parseString(l).getAsJsonObject();
            fs.add(pool.submit(() -> one(q)));
        }
        for (Future<JsonObject> f : fs) out.println(f.get());
        out.flush(); pool.shutdown();
    }
}
