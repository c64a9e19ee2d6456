import ethereum.cryptography.CellsAndProofs;
import ethereum.cryptography.LibEthKZG;
import java.io.BufferedReader;
import java.io.FileOutputStream;
import java.io.FileDescriptor;
import java.io.PrintStream;
import java.nio.ByteBuffer;
import java.nio.ByteOrder;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.security.MessageDigest;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.List;
import java.util.Map;

/** Executes a plan on the Java class. */
public class Driver {
    static byte[][] pool;
    static PrintStream out;
    static final Map<String, LibEthKZG> ctxs = new HashMap<>();

    static void say(String s) {
        out.println(s);
        out.flush();
    }

    static LibEthKZG make(String cfg) {
        int t = cfg.indexOf('t');
        return new LibEthKZG(cfg.charAt(1) == '1', Long.parseLong(cfg.substring(t + 1)));
    }

    static byte[] one(String s) {
        return s.equals("n") ? null : pool[Integer.parseInt(s)];
    }

    static byte[][] list(String s) {
        if (s.equals("null")) return null;
        if (s.equals("-")) return new byte[0][];
        String[] f = s.split(",");
        byte[][] r = new byte[f.length][];
        for (int i = 0; i < f.length; i++) r[i] = one(f[i]);
        return r;
    }

    static long[] nums(String s) {
        if (s.equals("null")) return null;
        if (s.equals("-")) return new long[0];
        String[] f = s.split(",");
        long[] r = new long[f.length];
        for (int i = 0; i < f.length; i++) r[i] = Long.parseLong(f[i]);
        return r;
    }

    static String digest(byte[][]... lists) throws Exception {
        MessageDigest h = MessageDigest.getInstance("SHA-256");
        for (byte[][] l : lists) {
            h.update(le(l.length));
            for (byte[] e : l) {
                h.update(le(e.length));
                h.update(e);
            }
        }
        StringBuilder b = new StringBuilder();
        for (byte x : h.digest()) b.append(String.format("%02x", x));
        return b.toString();
    }

    static byte[] le(int n) {
        return ByteBuffer.allocate(4).order(ByteOrder.LITTLE_ENDIAN).putInt(n).array();
    }

    static Object raw(LibEthKZG k, String[] f) {
        switch (f[0]) {
            case "commit":
                return k.blobToKZGCommitment(one(f[1]));
            case "compute":
                return k.computeCellsAndKZGProofs(one(f[1]));
            case "verify":
                return k.verifyCellKZGProofBatch(list(f[1]), nums(f[2]), list(f[3]), list(f[4]));
            case "recover":
                return k.recoverCellsAndKZGProofs(nums(f[1]), list(f[2]));
            default:
                throw new Error("op " + f[0]);
        }
    }

    static String text(Object r) throws Exception {
        if (r == null) return "null";
        if (r instanceof Boolean) return r.toString();
        if (r instanceof byte[]) return "ok:" + digest(new byte[][] {(byte[]) r});
        CellsAndProofs c = (CellsAndProofs) r;
        return "ok:" + digest(c.getCells(), c.getProofs());
    }

    static String call(LibEthKZG k, String[] f) throws Exception {
        Object r;
        try {
            r = raw(k, f);
        } catch (Exception e) {
            return "err";
        } catch (Throwable e) {
            return "thrown:" + e.getClass().getName();
        }
        String t = text(r);
        if (r != null && !(r instanceof Boolean)) {
            results.add(new Object[] {r, t});
            if (results.size() > 4) forget();
        }
        return t;
    }

    /**
     * The last results: they belong to the caller, so that they stay as they are while more calls
     * are made, and so that writing to them does not touch anything else.
     */
    static final java.util.ArrayDeque<Object[]> results = new java.util.ArrayDeque<>();
    static String current = "";

    static int pairs = 0;
    static CellsAndProofs previous;

    /** What the result class says of itself. */
    static void consistent(CellsAndProofs c) {
        // every cell and every proof is changed in one of the first results, then it is enough to
        // go on with one of each
        int n = c.getCells().length, m = c.getProofs().length;
        int from = pairs < 1 ? 0 : pairs % (n + m), to = pairs < 1 ? n + m : from + 1;
        pairs++;
        java.io.ByteArrayOutputStream all = new java.io.ByteArrayOutputStream();
        byte[][] cells = new byte[n][], proofs = new byte[m][];
        for (int i = 0; i < n; i++) {
            cells[i] = c.getCells()[i].clone();
            all.write(cells[i], 0, cells[i].length);
        }
        for (int i = 0; i < m; i++) {
            proofs[i] = c.getProofs()[i].clone();
            all.write(proofs[i], 0, proofs[i].length);
        }
        String id = current;
        if (!Arrays.equals(all.toByteArray(), c.toBytes())) say("X " + id + " toBytes does not give the cells and then the proofs");
        if (c.cells != c.getCells() || c.proofs != c.getProofs()) say("X " + id + " the fields are not what the getters give");
        CellsAndProofs o = CellsAndProofs.of(cells, proofs);
        if (o.getCells() != cells || o.getProofs() != proofs) say("X " + id + " of() gives something else than it is given");
        if (!c.equals(o) || !o.equals(c) || !c.equals(c) || c.hashCode() != o.hashCode()) say("X " + id + " is not equal to its copy");
        if (c.equals(null) || c.equals((Object) cells)) say("X " + id + " is equal to something that is no result");
        for (int j = from; j < to; j++) {
            byte[] x = j < n ? cells[j] : proofs[j - n];
            for (int at : new int[] {0, 31, x.length - 1}) {
                x[at] ^= 1;
                if (c.equals(o) || o.equals(c)) say("X " + id + " is equal to a result that differs in byte " + at + " of part " + j);
                x[at] ^= 1;
            }
        }
        if (previous != null && previous.equals(c) != Arrays.equals(previous.toBytes(), c.toBytes())) say("X " + id + " equals() disagrees with the bytes");
        previous = o;
    }

    static void forget() throws Exception {
        Object[] r = results.remove();
        if (r[0] instanceof CellsAndProofs) consistent((CellsAndProofs) r[0]);
        if (!text(r[0]).equals(r[1])) say("X " + current + " a result of an earlier call changed");
        if (r[0] instanceof byte[]) scribble((byte[]) r[0]);
        else {
            CellsAndProofs c = (CellsAndProofs) r[0];
            for (byte[] x : c.getCells()) scribble(x);
            for (byte[] x : c.getProofs()) scribble(x);
        }
    }

    static void scribble(byte[] x) {
        for (int i = 0; i < x.length; i++) x[i] ^= (byte) 0xa5;
    }

    public static void main(String[] a) throws Exception {
        out = new PrintStream(new FileOutputStream(FileDescriptor.out));
        System.setOut(new PrintStream(new java.io.OutputStream() {
            public void write(int b) {}
        }));
        ByteBuffer b = ByteBuffer.wrap(Files.readAllBytes(Paths.get(a[0]))).order(ByteOrder.LITTLE_ENDIAN);
        pool = new byte[b.getInt()][];
        for (int i = 0; i < pool.length; i++) {
            pool[i] = new byte[b.getInt()];
            b.get(pool[i]);
        }
        String before = digest(pool);
        List<String> plan = Files.readAllLines(Paths.get(a[1]));
        String[] some = new String[4];
        for (String l : plan) {
            String[] parts = l.split(" \\| ");
            String[] h = parts[0].split(" ");
            say("B " + h[0]);
            current = h[0];
            LibEthKZG k = ctxs.get(h[1]);
            if (k == null) {
                k = make(h[1]);
                ctxs.put(h[1], k);
            }
            StringBuilder r = new StringBuilder();
            for (int i = 1; i < parts.length; i++) {
                String[] f = parts[i].split(" ");
                if (i > 1) r.append(" ");
                r.append(call(k, f));
                int kind = Arrays.asList("commit", "compute", "verify", "recover").indexOf(f[0]);
                if (some[kind] == null) some[kind] = parts[i];
            }
            say("E " + h[0] + " " + r);
        }
        while (!results.isEmpty()) forget();
        if (a[2].equals("0") || plan.size() < 3) lives(plan, some);
        if (a[2].equals("0")) published(some);
        while (!results.isEmpty()) forget();
        if (!digest(pool).equals(before)) say("X pool an input was modified");
        say("END");
        // the virtual machine also ends well
    }

    /** The sizes the class publishes, and the object it makes without arguments. */
    static void published(String[] some) throws Exception {
        if (System.getenv("MC_CASE") != null) return;
        int[][] v = {
            {LibEthKZG.BYTES_PER_COMMITMENT, 48}, {LibEthKZG.BYTES_PER_PROOF, 48}, {LibEthKZG.BYTES_PER_FIELD_ELEMENT, 32},
            {LibEthKZG.BYTES_PER_BLOB, 131072}, {LibEthKZG.MAX_NUM_COLUMNS, 128}, {LibEthKZG.BYTES_PER_CELL, 2048}
        };
        for (int i = 0; i < v.length; i++) {
            String id = "published/size/" + i;
            say("B " + id);
            if (v[i][0] == v[i][1]) say("I case " + id); else say("X " + id + " is " + v[i][0] + ", not " + v[i][1]);
        }
        LibEthKZG alive = ctxs.values().iterator().next();
        try (LibEthKZG k = new LibEthKZG()) {
            for (String s : some) {
                if (s == null) continue;
                String id = "published/default/" + s.split(" ")[0];
                say("B " + id);
                String r = call(k, s.split(" ")), w = call(alive, s.split(" "));
                if (r.equals(w)) say("I case " + id); else say("X " + id + " gives " + r + " instead of " + w);
            }
        }
    }

    /** Object lives: every word of calls on a destroyed object, next to one that lives on. */
    static void lives(List<String> plan, String[] some) throws Exception {
        if (System.getenv("MC_CASE") != null && !System.getenv("MC_CASE").startsWith("lives/")) return;
        List<String> letters = new ArrayList<>();
        for (String s : some) if (s != null) letters.add(s);
        letters.add("destroy");
        letters.add("close");
        LibEthKZG alive = ctxs.values().iterator().next();
        for (String end : new String[] {"destroy", "close"}) {
            LibEthKZG k = make("p0t1");
            String[] before = new String[letters.size()];
            for (int i = 0; i < letters.size() - 2; i++) before[i] = call(alive, letters.get(i).split(" "));
            for (int i = 0; i < letters.size() - 2; i++) {
                String r = call(k, letters.get(i).split(" "));
                if (!r.equals(before[i])) say("X lives/" + end + " " + letters.get(i).split(" ")[0] + " gives " + r + " on one object, " + before[i] + " on another");
            }
            if (end.equals("destroy")) k.destroy(); else k.close();
            int n = letters.size();
            int len = 3;
            for (int w = 0; w < n * n * n; w++) {
                int x = w;
                StringBuilder name = new StringBuilder("lives/" + end);
                for (int j = 0; j < len; j++) name.append(".").append(letters.get((x / (int) Math.pow(n, j)) % n).split(" ")[0]);
                say("B " + name);
                boolean ok = true;
                for (int j = 0; j < len; j++) {
                    String l = letters.get(x % n);
                    x /= n;
                    try {
                        if (l.equals("destroy")) {
                            k.destroy();
                            continue;
                        }
                        if (l.equals("close")) {
                            k.close();
                            continue;
                        }
                        Object r = raw(k, l.split(" "));
                        say("X " + name + " " + l.split(" ")[0] + " on a destroyed object gave " + text(r));
                        ok = false;
                    } catch (Exception e) {
                        if (!(e instanceof IllegalStateException)) {
                            say("X " + name + " a destroyed object threw " + e);
                            ok = false;
                        }
                    } catch (Throwable e) {
                        say("X " + name + " a destroyed object threw " + e);
                        ok = false;
                    }
                }
                if (ok) say("I case " + name);
            }
            for (int i = 0; i < letters.size() - 2; i++) {
                String r = call(alive, letters.get(i).split(" "));
                if (!r.equals(before[i])) say("X lives/" + end + " the other object gives " + r + " instead of " + before[i]);
            }
        }
    }
}
