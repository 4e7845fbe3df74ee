// java Prog SEED COUNT: runs COUNT random chains of calls that end in an exception, each in a thread of its
// own, and prints for each, in base64: what the JVM prints for the uncaught exception, the name of the
// thread, and what the exceptions and their stack trace elements say.
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import java.util.concurrent.*;
import java.util.function.*;
import java.util.stream.*;

public class Prog {
    static Random r;
    static <T> T pick(T... a) { return a[r.nextInt(a.length)]; }
    static String message() {
        return pick("x", "", null, "a: b", "that is bad\nat home\n that matters", "two\nlines", "(x)", "tab\tat x", "Caused by: me", "\n", "... 3 more", "not\n... at all", "look at\n\nthis: at\n", "[CIRCULAR REFERENCE:]", "über", "\"q\" at", " lead", "x\r", "at x.Y(Z.java:3)", "see\n(at x)", "more\nException in thread \"x\" y");
    }
    static class Mine extends Exception { Mine(String m, Throwable c) { super(m, c); } }
    static class Bare extends RuntimeException { Bare(String m, Throwable c) { super(m, c, true, false); } }
    static class Localized extends RuntimeException { Localized(String m) { super(m); } public String getLocalizedMessage() { return "localized: " + getMessage(); } }
    static class Ünï extends Error { Ünï(String m) { super(m); } }
    static class Generic<T> { static class Ex extends IllegalStateException { Ex(String m, Throwable c) { super(m, c); } } }
    static Throwable exception(Throwable cause) {
        String m = message();
        Throwable t;
        switch (r.nextInt(14)) {
            case 0: t = new RuntimeException(m, cause); break;
            case 1: t = new Mine(m, cause); break;
            case 2: t = r.nextBoolean() ? new Bare(m, cause) : new RuntimeException(m, cause); break;
            case 3: t = new Localized(m); if (cause != null) t.initCause(cause); break;
            case 4: t = new Ünï(m); if (cause != null) t.initCause(cause); break;
            case 5: t = new Generic.Ex(m, cause); break;
            case 6: t = cause != null ? new RuntimeException(cause) : new Error(); break;
            case 7: t = new IOException(m, cause); break;
            case 8: t = new RuntimeException(m, cause) { }; break;
            case 9: t = new ExecutionException(m, cause); break;
            case 10: t = new Exception(m, cause); t.addSuppressed(new IOException(pick("close", "one\ntwo", null, "at x"), r.nextInt(4) == 0 ? new Mine("deep", null) : null)); break;
            case 11: t = new Exception(m, cause); t.addSuppressed(new Error()); t.addSuppressed(new Error("second")); break;
            case 12: { class L extends Exception { L() { super(m, cause); } } t = new L(); break; }
            default: t = new UncheckedIOException(m, cause instanceof IOException ? (IOException) cause : new IOException(m));
        }
        if (cause != null && r.nextInt(12) == 0) {
            Throwable c = t;
            for (int k = 0; k < 50 && c.getCause() != null; k++) c = c.getCause();
            try { if (c != t) c.initCause(t); } catch (IllegalStateException e) { }
        }
        return t;
    }
    static <T extends Throwable> void sneak(Throwable t) throws T { throw (T) t; }
    static void fail() throws Throwable {
        switch (r.nextInt(16)) {
            case 0: Object o = null; o.toString(); break;
            case 1: int[] a = new int[2]; a[r.nextInt(5) + 2] = 1; break;
            case 2: Object s = "x"; Integer i = (Integer) s; break;
            case 3: System.out.print(1 / (r.nextInt(1))); break;
            case 4: Class.forName("not.There"); break;
            case 5: Integer.parseInt("x\ny"); break;
            case 6: List.of(1).add(2); break;
            case 7: new ArrayList<Integer>().iterator().next(); break;
            case 8: assertion(); break;
            case 9: new FileInputStream("/nonexistent/x (y)"); break;
            default: throw exception(r.nextInt(3) == 0 ? exception(r.nextBoolean() ? exception(null) : null) : null);
        }
    }
    static void assertion() { throw new AssertionError(message()); }
    interface Step { void run() throws Throwable; default void viaDefault() throws Throwable { run(); } }
    static void go(Step s) { try { s.run(); } catch (Throwable t) { Prog.<RuntimeException>sneak(t); } }
    static abstract class Base { Base(Step s) { go(s); } abstract void m(); }
    class Inner { class Deep { void go(Step s) throws Throwable { s.run(); } } }
    enum En { A { void f(Step s) { go(s); } }; abstract void f(Step s); }
    record Rec(Step s) { Rec { go(s); } }
    static <T> T generic(T x, Step s) throws Throwable { s.run(); return x; }
    static void varargs(Step... s) throws Throwable { s[0].run(); }
    synchronized void sync(Step s) throws Throwable { synchronized (s) { s.run(); } }
    static int rec(int n, Step s) throws Throwable { if (n == 0) s.run(); return rec(n - 1, s) + 1; }
    static void ünï$code_1(Step s) throws Throwable { s.run(); }
    static Step current;
    public static void reflected() throws Throwable { current.run(); }
    static class Lazy { static { Step s = current; current = null; if (s != null) go(s); } static void touch() { } }
    static Step chain(int depth) {
        if (depth == 0) return Prog::fail;
        Step n = chain(depth - 1);
        switch (r.nextInt(26)) {
            case 0: return () -> n.run();
            case 1: return n::viaDefault;
            case 2: return new Step() { public void run() throws Throwable { n.run(); } };
            case 3: return () -> Stream.of(1, 2).map(x -> { go(n); return x; }).collect(Collectors.toList());
            case 4: return () -> Arrays.asList(2, 1, 3).sort((a, b) -> { go(n); return 0; });
            case 5: return () -> new Base(n) { void m() { } };
            case 6: return () -> new Prog().new Inner().new Deep().go(n);
            case 7: return () -> En.A.f(n);
            case 8: return () -> new Rec(n);
            case 9: return () -> generic("x", n);
            case 10: return () -> varargs(n);
            case 11: return () -> new Prog().sync(n);
            case 12: { int k = r.nextInt(12); return () -> rec(k, n); }
            case 13: return () -> ünï$code_1(n);
            case 14: return () -> { current = n; Prog.class.getMethod("reflected").invoke(null); };
            case 15: return () -> { try { n.run(); } catch (Throwable t) { throw exception(t); } };
            case 16: return () -> { try { n.run(); } finally { r.nextInt(); } };
            case 17: return () -> { try { n.run(); } catch (RuntimeException t) { throw t; } catch (Throwable t) { throw new IllegalStateException("wrapped", t); } };
            case 18: return () -> { try (AutoCloseable c = () -> { throw new IOException("close\nfailed at end"); }) { n.run(); } };
            case 19: return () -> new HashMap<Integer, Integer>().computeIfAbsent(1, k -> { go(n); return 1; });
            case 20: return () -> Optional.of(1).ifPresent(x -> go(n));
            case 21: return () -> { ExecutorService p = Executors.newSingleThreadExecutor(); try { p.submit(() -> { go(n); return 1; }).get(); } finally { p.shutdown(); } };
            case 22: return () -> CompletableFuture.supplyAsync(() -> { go(n); return 1; }).join();
            case 23: return () -> { Throwable[] q = new Throwable[1]; Thread t = new Thread(() -> go(n), "inner"); t.setUncaughtExceptionHandler((w, e) -> q[0] = e); t.start(); t.join(); if (q[0] != null) throw q[0]; };
            case 24: return () -> IntStream.range(0, 3).parallel().boxed().sequential().forEach(x -> go(n));
            default: return () -> { if (r.nextBoolean()) { n.run(); } else { n.run(); } };
        }
    }
    static String b(String s) { return s == null ? "-" : "=" + Base64.getEncoder().encodeToString(s.getBytes(StandardCharsets.UTF_8)); }
    public static void main(String[] v) throws Throwable {
        r = new Random(Long.parseLong(v[0]));
        PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "UTF-8");
        for (int i = Integer.parseInt(v[1]); i > 0; i--) {
            Step s = chain(r.nextInt(8));
            String name = pick("main", "Thread-1", "pool 1: x", "th \"x\" y", "über", "a\" b", "", "[x]");
            Throwable[] seen = new Throwable[1];
            String[] text = new String[1];
            ThreadGroup g = new ThreadGroup("g");
            Thread t = new Thread(g, () -> go(s), name);
            t.setUncaughtExceptionHandler((w, e) -> {
                seen[0] = e;
                // what happens to an uncaught exception
                PrintStream old = System.err;
                ByteArrayOutputStream bytes = new ByteArrayOutputStream();
                try { System.setErr(new PrintStream(bytes, false, "UTF-8")); g.uncaughtException(w, e); System.err.flush(); text[0] = bytes.toString("UTF-8"); } catch (UnsupportedEncodingException x) { }
                finally { System.setErr(old); }
            });
            t.start();
            t.join();
            if (seen[0] == null) continue;
            StringBuilder o = new StringBuilder("T " + b(text[0]) + " " + b(name) + "\n");
            Set<Throwable> shown = Collections.newSetFromMap(new IdentityHashMap<>());
            StackTraceElement[] enclosing = {};
            for (Throwable e = seen[0]; e != null && shown.add(e); e = e.getCause()) {
                StackTraceElement[] fs = e.getStackTrace();
                int common = 0;
                while (common < fs.length && common < enclosing.length && fs[fs.length - 1 - common].equals(enclosing[enclosing.length - 1 - common])) common++;
                o.append("E " + b(e.getClass().getName()) + " " + b(e.getLocalizedMessage()) + "\n");
                for (int k = 0; k < fs.length - common; k++) {
                    StackTraceElement f = fs[k];
                    String full = f.toString();
                    o.append("F " + b(full.substring(0, full.length() - full.substring(full.lastIndexOf("(")).length())) + " " + b(f.getFileName()) + " " + f.getLineNumber() + " " + f.isNativeMethod() + "\n");
                }
                enclosing = fs;
            }
            out.print(o);
        }
        out.flush();
        System.exit(0);
    }
}
