import java.util.*;
import java.util.function.Consumer;
import se.lth.cs.docria.*;

/** Iterations over a layer that are interrupted by edits of it. */
class Iterations {
    final Document doc = new Document();
    final Layer layer;
    final Map<Integer, Node> nodes = new HashMap<>();
    final List<Iterator<Node>> its = new ArrayList<>();
    int made = 0;

    Iterations(int n) {
        Schema.LayerBuilder b = Layer.builder("t");
        b.addField("k", DataTypes.INT_32);
        layer = doc.add(b.build());
        for (int i = 0; i < n; i++) add();
    }

    void add() {
        Node n = Node.builder(layer).put("k", made).build();
        layer.add(n);
        nodes.put(made++, n);
    }

    static int num(Object o) { return (int) (long) (Long) o; }

    List<Node> labels(Object o) {
        List<Node> out = new ArrayList<>();
        for (Object x : (List<?>) o) out.add(nodes.get(num(x)));
        return out;
    }

    Object rest(Iterator<Node> it, List<Object> out) {
        while (it.hasNext() && out.size() < 4 * made + 4) out.add(label(it.next()));
        return out;
    }

    Object label(Node n) { return n == null ? (Object) "null" : n.layer() != layer ? (Object) ("detached " + n.getInt("k")) : (Object) n.getInt("k"); }

    Object apply(List<?> op) {
        switch ((String) op.get(0)) {
            case "open":
                switch ((String) op.get(1)) {
                    case "iterator": its.add(layer.iterator()); break;
                    case "stream": its.add(layer.stream().iterator()); break;
                    case "typed": its.add(layer.stream(Node.class).iterator()); break;
                    case "span": its.add(new NodeSpan(nodes.get(num(op.get(2))), nodes.get(num(op.get(3)))).iterator()); break;
                    case "nodespan": its.add(layer.nodespan(nodes.get(num(op.get(2))), nodes.get(num(op.get(3)))).iterator()); break;
                    default: throw new IllegalArgumentException("script: " + op);
                }
                return null;
            case "step": {
                Iterator<Node> it = its.get(num(op.get(1)));
                return it.hasNext() ? label(it.next()) : null;
            }
            case "rest": return rest(its.get(num(op.get(1))), new ArrayList<>());
            case "remove": for (Node n : labels(op.get(1))) layer.remove(n); return null;
            case "removeObject": for (Node n : labels(op.get(1))) layer.remove((Object) n); return null;
            case "removeAll": layer.removeAll(labels(op.get(1))); return null;
            case "retain": layer.retainAll(labels(op.get(1))); return null;
            case "readd": for (Node n : labels(op.get(1))) layer.add(n); return null;
            case "add": add(); return null;
            case "compact": layer.compact(); return null;
            case "sort": layer.sort((x, y) -> Integer.compare(y.getInt("k"), x.getInt("k"))); return null;
            case "encode": MsgpackCodec.encode(doc); return null;
            case "list": return rest(layer.iterator(), new ArrayList<>());
            default: throw new IllegalArgumentException("script: " + op);
        }
    }

    Object guarded(List<?> op) {
        try {
            return apply(op);
        } catch (ConcurrentModificationException e) {
            return "refused";
        } catch (IllegalArgumentException e) {
            if (String.valueOf(e.getMessage()).startsWith("script:")) throw e;
            return "error " + e;
        } catch (RuntimeException e) {
            return "error " + e;
        }
    }

    /** [number of nodes, operations] */
    static Object interleaved(Bridge b, List<?> args) {
        Iterations t = new Iterations(num(args.get(0)));
        List<Object> out = new ArrayList<>();
        for (Object op : (List<?>) args.get(1)) out.add(t.guarded((List<?>) op));
        return new Bridge.Raw(out);
    }

    /** [number of nodes, way to visit, operations at each visit] */
    static Object loop(Bridge b, List<?> args) {
        Iterations t = new Iterations(num(args.get(0)));
        List<?> plan = (List<?>) args.get(2);
        List<Object> out = new ArrayList<>();
        Consumer<Node> body = n -> {
            int at = out.size();
            out.add(t.label(n));
            if (at < plan.size())
                for (Object op : (List<?>) plan.get(at)) t.apply((List<?>) op);
        };
        Node first = t.nodes.get(0), last = t.nodes.get(t.made - 1);
        Object end = null;
        try {
            switch ((String) args.get(1)) {
                case "for": for (Node n : t.layer) body.accept(n); break;
                case "forEach": t.layer.forEach(body); break;
                case "stream": t.layer.stream().forEach(body); break;
                case "spanFor": for (Node n : new NodeSpan(first, last)) body.accept(n); break;
                case "spanForEach": new NodeSpan(first, last).forEach(body); break;
                case "nodespan": t.layer.nodespan(first, last).forEach(body); break;
                default: throw new IllegalArgumentException("script: " + args);
            }
        } catch (ConcurrentModificationException e) {
            end = "refused";
        }
        return new Bridge.Raw(Arrays.asList(out, end, t.rest(t.layer.iterator(), new ArrayList<>())));
    }
}
