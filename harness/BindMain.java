import java.io.*;
import java.util.*;
import bw.co.roguesystems.Hdbscan;

/** Executes scenarios on the Java class: BindMain SCENARIOS OUT */
public class BindMain {
    static native void mem(long[] a);
    static PrintStream out;
    static String list(int[] a) { StringBuilder s = new StringBuilder("["); for (int i = 0; i < a.length; i++) { if (i > 0) s.append(","); s.append(a[i]); } return s.append("]").toString(); }
    static String map(Map<Integer, ArrayList<Integer>> m) {
        StringBuilder s = new StringBuilder("["); boolean f = true;
        for (Map.Entry<Integer, ArrayList<Integer>> e : new TreeMap<Integer, ArrayList<Integer>>(m).entrySet()) {
            if (!f) s.append(","); f = false; s.append("[").append(e.getKey()).append(",[");
            for (int i = 0; i < e.getValue().size(); i++) { if (i > 0) s.append(","); s.append(e.getValue().get(i)); }
            s.append("]]");
        }
        return s.append("]").toString();
    }
    static double[][] bad(String k) {
        switch (k) {
            case "null": return null;
            case "empty": return new double[0][];
            case "ragged": return new double[][] {{1, 2}, {3}, {4, 5}};
            case "longer": return new double[][] {{1}, {3, 4}, {4}};
            case "nullrow": return new double[][] {{1, 2}, null, {4, 5}};
            case "nullfirst": return new double[][] {null, {1, 2}};
            default: throw new RuntimeException(k);
        }
    }
    static boolean equal(double[][] a, double[][] b) { return Arrays.deepEquals(a, b); }
    static double[][] copy(double[][] a) { if (a == null) return null; double[][] c = new double[a.length][]; for (int i = 0; i < a.length; i++) c[i] = a[i] == null ? null : a[i].clone(); return c; }
    static void scenario(List<String> lines) {
        Map<Integer, double[][]> D = new HashMap<>(); Map<Integer, Hdbscan> H = new HashMap<>();
        List<Object[]> kept = new ArrayList<>();
        for (String l : lines) {
            String[] w = l.trim().split(" +"); String op = w[0];
            if (op.equals("data")) {
                int rows = Integer.parseInt(w[4]), cols = Integer.parseInt(w[5]); double[][] a = new double[rows][cols];
                for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) a[i][j] = Double.parseDouble(w[7 + i * cols + j]);
                D.put(Integer.parseInt(w[1]), a); continue;
            }
            if (op.equals("bad")) { D.put(-Integer.parseInt(w[1]), bad(w[2])); continue; }
            if (op.equals("mem")) { long[] a = new long[3]; mem(a); out.println("{\"e\":\"mem\",\"live\":" + (a[0] - base) + ",\"bad\":" + a[1] + ",\"over\":" + a[2] + "}"); continue; }
            if (op.equals("kept")) {
                boolean s = true;
                for (Object[] k : kept) s &= (k[0] instanceof int[] ? list((int[]) k[0]) : map((Map<Integer, ArrayList<Integer>>) k[0])).equals(k[1]);
                out.println("{\"e\":\"kept\",\"same\":" + (s ? 1 : 0) + "}"); continue;
            }
            int h = Integer.parseInt(w[1]); String r = "", o = "ok", x = ""; boolean intact = true;
            try {
                if (op.equals("new")) { r = ",\"mp\":" + w[2]; Hdbscan n = new Hdbscan(Integer.parseInt(w[2])); H.put(h, n); }
                else if (op.equals("run")) {
                    r = ",\"k\":" + w[2]; double[][] a = D.get(Integer.parseInt(w[2])), b = copy(a);
                    try { H.get(h).run(a); } finally { intact = equal(a, b); }
                }
                else if (op.equals("rerun")) { r = ",\"mp\":" + w[2]; H.get(h).reRun(Integer.parseInt(w[2])); }
                else if (op.equals("labels")) {
                    int[] a = H.get(h).getLabels();
                    if (a == null) o = "err"; else { r = ",\"l\":" + list(a); kept.add(new Object[] {a, list(a)}); }
                }
                else if (op.equals("groups")) {
                    r = ",\"b\":" + w[2] + ",\"to\":" + w[3]; Map<Integer, ArrayList<Integer>> m = H.get(h).getClusterMap();
                    if (m == null) o = "err"; else { r += ",\"m\":" + map(m); kept.add(new Object[] {m, map(m)}); }
                }
                else if (op.equals("clean")) H.get(h).cleanHdbscan();
                else if (op.equals("del")) { H.get(h).cleanHdbscan(); H.remove(h); }
            } catch (Throwable t) { o = "err"; x = t.getClass().getSimpleName(); }
            out.println("{\"e\":\"call\",\"op\":\"" + op + "\",\"h\":" + h + ",\"args\":1,\"intact\":" + (intact ? 1 : 0) + ",\"out\":\"" + o + "\",\"exc\":\"" + x + "\"" + r + "}");
        }
    }
    static long base = 0;
    public static void main(String[] a) throws Exception {
        BufferedReader in = new BufferedReader(new FileReader(a[0])); out = new PrintStream(new FileOutputStream(a[1]), true);
        String l; List<String> lines = null;
        Hdbscan warm = new Hdbscan(3); warm.cleanHdbscan();
        while ((l = in.readLine()) != null) {
            if (l.startsWith("S ")) { out.println("S " + l.substring(2)); lines = new ArrayList<>(); }
            else if (l.equals("E")) { long[] m = new long[3]; mem(m); base = m[0]; scenario(lines); out.println("E"); }
            else lines.add(l);
        }
    }
}
