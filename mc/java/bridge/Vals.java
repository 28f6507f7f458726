import java.util.*;
import java.util.concurrent.Callable;
import se.lth.cs.docria.*;
import se.lth.cs.docria.values.*;

/** Values: conversions, visitors, equality, acceptance by node builders, printing. */
class Vals {
    static Object attempt(Callable<Object> c) {
        try {
            Object o = c.call();
            if (o instanceof Double) return Arrays.asList("v", Double.doubleToRawLongBits((Double) o));
            if (o instanceof Node) return Arrays.asList("v", "node " + ((Node) o).get("k").intValue());
            if (o instanceof Node[]) {
                List<Object> all = new ArrayList<>();
                for (Node n : (Node[]) o) all.add(n.get("k").intValue());
                return Arrays.asList("v", all);
            }
            if (o instanceof Span) return Arrays.asList("v", Arrays.asList(((Span) o).start(), ((Span) o).stop()));
            if (o instanceof NodeSpan) return Arrays.asList("v", Arrays.asList(((NodeSpan) o).getLeft().get("k").intValue(), ((NodeSpan) o).getRight().get("k").intValue()));
            if (o instanceof DataType) return Arrays.asList("v", Helpers.type((DataType) o));
            return Arrays.asList("v", o);
        } catch (Exception e) {
            return Arrays.asList("e", e.getClass().getSimpleName());
        }
    }

    /** Which overloads a visitor sees that overrides them all, and that one that overrides only the general one sees the value. */
    static Object visited(Value v) {
        List<String> all = new ArrayList<>();
        ValueVisitor every = new ValueVisitor() {
            public void accept(Value x) { all.add("Value"); }
            public void accept(BoolValue x) { all.add("BoolValue"); }
            public void accept(IntValue x) { all.add("IntValue"); }
            public void accept(LongValue x) { all.add("LongValue"); }
            public void accept(DoubleValue x) { all.add("DoubleValue"); }
            public void accept(NullValue x) { all.add("NullValue"); }
            public void accept(BinaryValue x) { all.add("BinaryValue"); }
            public void accept(StringValue x) { all.add("StringValue"); }
            public void accept(ExtensionValue x) { all.add("ExtensionValue"); }
            public void accept(DocumentValue x) { all.add("DocumentValue"); }
            public void accept(Span x) { all.add("Span"); }
            public void accept(Node x) { all.add("Node"); }
            public void accept(NodeArrayValue x) { all.add("NodeArrayValue"); }
            public void accept(NodeSpan x) { all.add("NodeSpan"); }
        };
        v.visit(every);
        List<Boolean> same = new ArrayList<>();
        v.visit(x -> same.add(x == v));
        return Arrays.asList(all, same);
    }

    static Document sample(Map<String, List<Node>> made) {
        Document doc = new Document();
        doc.add(new Text("main", "abcdef"));
        Layer t = doc.add(Layer.builder("t").addField("k", DataTypes.INT_32).build());
        made.put("t", new ArrayList<>());
        for (int k = 0; k < 3; k++) {
            Node n = Node.builder(t).put("k", k).build();
            t.add(n);
            made.get("t").add(n);
        }
        return doc;
    }

    static Value value(Document doc, Map<String, List<Node>> made, List<?> v) {
        switch ((String) v.get(0)) {
            case "null": return Values.get((Object) null);
            case "d32": return Values.get((float) Double.longBitsToDouble((Long) v.get(1)));
            case "object": {
                List<?> in = (List<?>) v.get(1);
                switch ((String) in.get(0)) {
                    case "i": return Values.get((Object) (Integer) (int) (long) (Long) in.get(1));
                    case "l": return Values.get((Object) (Long) in.get(1));
                    case "d": return Values.get((Object) (Double) Double.longBitsToDouble((Long) in.get(1)));
                    case "z": return Values.get((Object) (Boolean) in.get(1));
                    case "s": return Values.get((Object) in.get(1));
                    case "b": return Values.get((Object) in.get(1));
                    case "nodes": {
                        List<Node> all = new ArrayList<>();
                        for (Object k : (List<?>) in.get(2)) all.add(made.get(in.get(1)).get((int) (long) (Long) k));
                        return Values.get((Object) all);
                    }
                    default: return Values.get((Object) value(doc, made, in));
                }
            }
            case "docobject": return Values.get(MsgpackCodec.decode((byte[]) v.get(1)));
            default: return Helpers.value(doc, made, v);
        }
    }

    static Object conversions(Bridge b, List<?> args) {
        List<Object> out = new ArrayList<>();
        for (Object x : (List<?>) args.get(0)) {
            Map<String, List<Node>> made = new HashMap<>();
            Document doc = sample(made);
            Value v = value(doc, made, (List<?>) x), w = value(doc, made, (List<?>) x);
            out.add(Arrays.asList(attempt(v::stringValue), attempt(v::boolValue), attempt(v::intValue), attempt(v::longValue), attempt(v::doubleValue),
                                  attempt(v::binaryValue), attempt(v::nodeValue), attempt(v::nodeArrayValue), attempt(v::spanValue), attempt(v::nodeSpanValue),
                                  attempt(v::type), visited(v), v.equals(v) && v.hashCode() == v.hashCode(), v.equals(w), !v.equals(w) || v.hashCode() == w.hashCode(),
                                  attempt(() -> v.toString() != null), v.getClass().getSimpleName()));
        }
        return Helpers.raw(out);
    }

    /** equals of every pair of values */
    static Object equalities(Bridge b, List<?> args) {
        List<Object> out = new ArrayList<>();
        for (Object x : (List<?>) args.get(0))
            for (Object y : (List<?>) args.get(0)) {
                Value v = value(null, null, (List<?>) x), w = value(null, null, (List<?>) y);
                out.add(Arrays.asList(v.equals(w), w.equals(v), v.hashCode() == w.hashCode(), v.equals(null), v.equals("x")));
            }
        return Helpers.raw(out);
    }

    /** Whether a builder takes a value: [[type, value]...] */
    static Object taken(Bridge b, List<?> args) {
        List<Object> out = new ArrayList<>();
        for (Object x : (List<?>) args.get(0)) {
            List<?> c = (List<?>) x;
            Map<String, List<Node>> made = new HashMap<>();
            Document doc = sample(made);
            doc.add(new Text("other", "abcdef"));
            Layer o = doc.add(Layer.builder("other").addField("k", DataTypes.INT_32).build());
            made.put("other", new ArrayList<>());
            for (int k = 0; k < 2; k++) {
                Node n = Node.builder(o).put("k", k).build();
                o.add(n);
                made.get("other").add(n);
            }
            Schema.LayerBuilder lb = Layer.builder("l").addField("x", Helpers.type((List<?>) c.get(0)));
            if ((Boolean) c.get(2)) lb.setFactory(Helpers.Fields::new);
            Layer l = doc.add(lb.build());
            Value v = value(doc, made, (List<?>) c.get(1));
            List<Object> res = new ArrayList<>();
            Node.Builder nb = Node.builder(l);
            res.add(attempt(() -> nb.put("x", v) == nb));
            res.add(attempt(() -> nb.put("nosuch", v) == nb));
            res.add(attempt(() -> nb.put("x", v) == nb));
            Node n = nb.build();
            res.add(attempt(() -> n.has("x")));
            res.add(attempt(() -> n.get("x") == v));
            res.add(attempt(() -> n.has("nosuch")));
            res.add(attempt(() -> l.add(n)));
            out.add(res);
        }
        return Helpers.raw(out);
    }

    static Object spanned(NodeSpan s) {
        return attempt(s::stringValue);
    }

    /** [texts of tokens (nil: none)], [left, right], what to remove -> string values and prints */
    static Object prints(Bridge b, List<?> args) {
        List<Object> out = new ArrayList<>();
        for (Object x : (List<?>) args.get(0)) {
            List<?> c = (List<?>) x;
            Document doc = new Document();
            doc.add(new Text("main", "abcdefghij"));
            Schema.LayerBuilder tb = Layer.builder("t").addField("k", DataTypes.INT_32);
            String kind = (String) c.get(3);
            if (kind.equals("span")) tb.addField("text", DataTypes.span("main"));
            else if (kind.equals("str")) tb.addField("text", DataTypes.STRING);
            Layer t = doc.add(tb.build());
            List<Node> made = new ArrayList<>();
            for (Object s : (List<?>) c.get(0)) {
                Node n = Node.builder(t).put("k", made.size()).build();
                if (s != null) {
                    if (kind.equals("str")) n.put("text", "word");
                    else n.put("text", doc.text("main").span((int) (long) (Long) ((List<?>) s).get(0), (int) (long) (Long) ((List<?>) s).get(1)));
                }
                t.add(n);
                made.add(n);
            }
            Layer l = doc.add(Layer.builder("l").addField("r", DataTypes.noderef("t")).addField("m", DataTypes.noderef_array("t")).addField("n", DataTypes.nodespan("t"))
                                   .addField("self", DataTypes.noderef("l")).addField("s", DataTypes.span("main")).build());
            int i = (int) (long) (Long) ((List<?>) c.get(1)).get(0), j = (int) (long) (Long) ((List<?>) c.get(1)).get(1);
            Node n = Node.builder(l).put("r", made.get(i)).put("m", new Node[] {made.get(i), made.get(j)}).put("n", made.get(i), made.get(j)).build();
            NodeSpan span = new NodeSpan(made.get(i), made.get(j));
            l.add(n);
            n.put("self", n);
            n.put("s", doc.text("main").span(1, 3));
            List<Object> res = new ArrayList<>();
            res.add(spanned(span));
            for (Object r : (List<?>) c.get(2)) {
                if (r.equals("layer")) doc.remove(t, true);
                else if (r.equals("own")) l.remove(n);
                else if (r.equals("text")) doc.remove(doc.text("main"), true);
                else if (r.equals("field")) t.removeField("text");
                else if (r.equals("clear")) t.clear();
                else t.remove(made.get((int) (long) (Long) r));
            }
            res.add(spanned(span));
            res.add(attempt(n::toString));
            for (Node m : made) res.add(attempt(m::toString));
            out.add(res);
        }
        return Helpers.raw(out);
    }

    static Object get(Bridge b, List<?> args) {
        Node n = (Node) b.regs.get(args.get(0));
        String f = (String) args.get(1);
        return Helpers.raw(Arrays.asList(Helpers.show(null, n.get(f)), Helpers.show(null, n.get(f, Values.get("default")))));
    }

    static Object each(Bridge b, List<?> args) {
        List<Object> out = new ArrayList<>();
        ((Node) b.regs.get(args.get(0))).forEach((k, v) -> out.add(Arrays.asList(k, Helpers.show(null, v))));
        return Helpers.raw(out);
    }
}
