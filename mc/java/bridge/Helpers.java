import java.io.*;
import java.util.*;
import java.util.stream.*;
import se.lth.cs.docria.*;
import se.lth.cs.docria.values.*;

/** What scripts can ask beyond single calls; everything goes through the public interface of docria. */
class Helpers {
    static Bridge.Raw raw(Object o) { return new Bridge.Raw(o); }

    static int place(Layer layer, Node n) {
        int k = 0;
        for (Iterator<Node> it = layer.iterator(); it.hasNext(); k++)
            if (it.next() == n) return k;
        return -1;
    }

    static Object place(Document doc, Node n) {
        Layer l = n.layer();
        if (l == null) return "detached";
        if (doc.layer(l.name()) != l) return "foreign";
        return Arrays.asList(l.name(), place(l, n));
    }

    static Object show(Document doc, Value v) {
        if (v == null) return Arrays.asList("java null");
        if (v instanceof NullValue) return null;
        if (v instanceof IntValue) return Arrays.asList("i", v.intValue());
        if (v instanceof LongValue) return Arrays.asList("l", v.longValue());
        if (v instanceof DoubleValue) return Arrays.asList("d", Double.doubleToRawLongBits(v.doubleValue()));
        if (v instanceof BoolValue) return Arrays.asList("z", v.boolValue());
        if (v instanceof StringValue) return Arrays.asList("s", v.stringValue());
        if (v instanceof BinaryValue) return Arrays.asList("b", v.binaryValue());
        if (v instanceof DocumentValue) return Arrays.asList("doc", v.binaryValue());
        if (v instanceof ExtensionValue) return Arrays.asList("x", v.type().args().get("type").stringValue(), v.binaryValue());
        if (v instanceof Span) {
            Span s = (Span) v;
            boolean mine = doc.text(s.source().name()) == s.source();
            return Arrays.asList(mine ? "span" : "foreign span", s.source().name(), s.start(), s.stop(), s.toString());
        }
        if (v instanceof Node) return Arrays.asList("node", place(doc, (Node) v));
        if (v instanceof NodeSpan) return Arrays.asList("nspan", place(doc, ((NodeSpan) v).getLeft()), place(doc, ((NodeSpan) v).getRight()));
        if (v instanceof NodeArrayValue) return Arrays.asList("nodes", Arrays.stream(v.nodeArrayValue()).map(n -> place(doc, n)).collect(Collectors.toList()));
        return Arrays.asList("other " + v.getClass().getSimpleName());
    }

    static Object type(DataType t) {
        Map<Object, Object> args = new TreeMap<>();
        t.args().forEach((k, v) -> args.put(k, show(null, v)));
        return Arrays.asList(t.name().getName(), args);
    }

    /** Everything a document holds. */
    static Object dump(Document doc) {
        Map<Object, Object> out = new TreeMap<>();
        Map<Object, Object> props = new TreeMap<>();
        doc.props().forEach((k, v) -> props.put(k, show(doc, v)));
        out.put("props", props);
        Map<Object, Object> texts = new TreeMap<>();
        for (Text t : doc.texts()) texts.put(t.name(), t.toString());
        out.put("texts", texts);
        Map<Object, Object> layers = new TreeMap<>();
        for (Layer l : doc.layers()) {
            List<Object> nodes = new ArrayList<>();
            Map<Object, Object> fields = new TreeMap<>();
            l.schema().fields().forEach((k, v) -> fields.put(k, type(v)));
            for (Node n : l) {
                Map<Object, Object> values = new TreeMap<>();
                n.forEach((k, v) -> values.put(k, show(doc, v)));
                nodes.add(values);
            }
            layers.put(l.name(), Arrays.asList(fields, nodes, l.size()));
        }
        out.put("layers", layers);
        return raw(out);
    }

    static DataType type(List<?> t) {
        if (DataTypeName.from((String) t.get(0)).ordinal() <= DataTypeName.STRING.ordinal() && t.size() > 1) {
            DataType.Builder b = new DataType.Builder(DataTypeName.from((String) t.get(0)));
            Value v = value(null, null, (List<?>) t.get(1));
            if (v instanceof IntValue) b.addArg("default", v.intValue());
            else if (v instanceof LongValue) b.addArg("default", v.longValue());
            else if (v instanceof DoubleValue) b.addArg("default", v.doubleValue());
            else if (v instanceof BoolValue) b.addArg("default", v.boolValue());
            else b.addArg("default", v.stringValue());
            return b.build();
        }
        switch ((String) t.get(0)) {
            case "i32": return DataTypes.INT_32;
            case "i64": return DataTypes.INT_64;
            case "f64": return DataTypes.FLOAT_64;
            case "i1": return DataTypes.BOOLEAN;
            case "str": return DataTypes.STRING;
            case "bin": return DataTypes.BINARY;
            case "span": return DataTypes.span((String) t.get(1));
            case "ext": return DataTypes.ext((String) t.get(1));
            case "noderef": return DataTypes.noderef((String) t.get(1));
            case "noderef_array": return DataTypes.noderef_array((String) t.get(1));
            case "nodespan": return DataTypes.nodespan((String) t.get(1));
            default: throw new IllegalArgumentException("script: type " + t);
        }
    }

    static Value value(Document doc, Map<String, List<Node>> made, List<?> v) {
        switch ((String) v.get(0)) {
            case "i": return Values.get((int) (long) (Long) v.get(1));
            case "l": return Values.get((long) (Long) v.get(1));
            case "d": return Values.get(Double.longBitsToDouble((Long) v.get(1)));
            case "z": return Values.get((boolean) (Boolean) v.get(1));
            case "s": return Values.get((String) v.get(1));
            case "b": return Values.get((byte[]) v.get(1));
            case "x": return new ExtensionValue((String) v.get(1), (byte[]) v.get(2));
            case "doc": return new DocumentValue((byte[]) v.get(1));
            case "span": return doc.text((String) v.get(1)).span((int) (long) (Long) v.get(2), (int) (long) (Long) v.get(3));
            case "node": return made.get(v.get(1)).get((int) (long) (Long) v.get(2));
            case "nspan": return new NodeSpan(made.get(v.get(1)).get((int) (long) (Long) v.get(2)), made.get(v.get(1)).get((int) (long) (Long) v.get(3)));
            case "nodes": {
                List<Node> all = new ArrayList<>();
                for (Object k : (List<?>) v.get(2)) all.add(made.get(v.get(1)).get((int) (long) (Long) k));
                return Values.get(all.toArray(new Node[0]));
            }
            default: throw new IllegalArgumentException("script: value " + v);
        }
    }

    /** A node class of an application: some fields live in the object, the rest in the generic map. */
    public static class Fields extends ConcreteNode {
        private static final NodeInterface INTERFACE;
        private final Map<String, Value> own = new HashMap<>();

        static {
            ConcreteNode.Builder<Fields> b = new ConcreteNode.Builder<>();
            for (String f : new String[] {"f", "v", "x", "s", "t", "r", "n", "m", "d"}) b.addField(f, n -> n.own.get(f), (n, v) -> n.own.put(f, v));
            INTERFACE = b.build();
        }

        @Override
        protected NodeInterface nodeInterface() { return INTERFACE; }
    }

    static Object decodeConcrete(byte[] data) {
        Map<String, NodeFactory> all = new AbstractMap<String, NodeFactory>() {
            @Override public boolean containsKey(Object k) { return true; }
            @Override public NodeFactory get(Object k) { return Fields::new; }
            @Override public NodeFactory getOrDefault(Object k, NodeFactory d) { return Fields::new; }
            @Override public Set<Entry<String, NodeFactory>> entrySet() { return Collections.emptySet(); }
        };
        Document doc = MsgpackCodec.decode(data, all);
        for (Layer l : doc.layers())
            for (Node n : l)
                if (!(n instanceof Fields)) throw new IllegalStateException("a node of layer " + l.name() + " was not made by the factory: " + n.getClass());
        return doc;
    }

    /** Builds a document: [props, {text: content}, [[layer, [[field, type]], [[{field: value}, keep]]]]]; nodes with keep = false are removed at the end. */
    static Object build(Bridge b, List<?> args) {
        Document doc = new Document();
        Map<?, ?> props = (Map<?, ?>) args.get(0), texts = (Map<?, ?>) args.get(1);
        texts.forEach((k, v) -> doc.add(new Text((String) k, (String) v)));
        Map<String, List<Node>> made = new HashMap<>();
        for (Object x : (List<?>) args.get(2)) {
            List<?> l = (List<?>) x;
            Schema.LayerBuilder lb = Layer.builder((String) l.get(0));
            if (args.size() > 3) lb.setFactory(Fields::new);
            for (Object f : (List<?>) l.get(1)) lb.addField((String) ((List<?>) f).get(0), type((List<?>) ((List<?>) f).get(1)));
            Layer layer = doc.add(lb.build());
            List<Node> nodes = new ArrayList<>();
            for (Object n : (List<?>) l.get(2)) {
                Node node = Node.builder(layer).build();
                layer.add(node);
                nodes.add(node);
            }
            made.put((String) l.get(0), nodes);
        }
        for (Object x : (List<?>) args.get(2)) {
            List<?> l = (List<?>) x;
            int k = 0;
            for (Object n : (List<?>) l.get(2)) {
                Node node = made.get(l.get(0)).get(k++);
                ((Map<?, ?>) ((List<?>) n).get(0)).forEach((f, v) -> node.put((String) f, value(doc, made, (List<?>) v)));
            }
        }
        for (Object x : (List<?>) args.get(2)) {
            List<?> l = (List<?>) x;
            int k = 0;
            for (Object n : (List<?>) l.get(2)) {
                Node node = made.get(l.get(0)).get(k++);
                if (!(Boolean) ((List<?>) n).get(1)) doc.layer((String) l.get(0)).remove(node);
            }
        }
        props.forEach((k, v) -> doc.props().put((String) k, value(doc, made, (List<?>) v)));
        return doc;
    }

    /** Everything there is to read from a layer, nodes under their names. */
    static Object layer(Bridge b, Layer l) {
        Map<Object, Object> out = new TreeMap<>();
        out.put("size", l.size());
        out.put("empty", l.isEmpty());
        List<Node> order = l.stream().collect(Collectors.toList());
        out.put("stream", b.show(order));
        out.put("typed", b.show(l.stream(Node.class)));
        out.put("iterator", b.show(l.iterator()));
        List<Node> each = new ArrayList<>();
        l.forEach(each::add);
        out.put("forEach", b.show(each));
        out.put("array", b.show(l.toArray()));
        out.put("first", b.show(l.first()));
        out.put("last", b.show(l.last()));
        List<Object> ids = new ArrayList<>(), facts = new ArrayList<>();
        for (Node n : order) {
            ids.add(n.id());
            facts.add(n.layer() == l && n.isValid() && l.contains(n));
        }
        out.put("ids", ids);
        out.put("facts", facts);
        return raw(out);
    }

    static DataType type_(String name, String arg) { return type(arg == null ? Arrays.asList(name) : Arrays.asList(name, arg)); }
    static Value nothing() { return NullValue.INSTANCE; }
    static DataType int32() { return DataTypes.INT_32; }
    static Object removeObject(Collection<?> c, Object o) { return c.remove(o); }
    static Object removeNothing(Document doc) {
        doc.remove((Text) null);
        doc.remove((Text) null, true);
        doc.remove((Layer) null);
        doc.remove((Layer) null, true);
        return null;
    }

    static Object schemaOf(Schema schema) {
        Map<Object, Object> out = new TreeMap<>();
        schema.layers().forEach(l -> {
            Map<Object, Object> fields = new TreeMap<>();
            l.fields().forEach((k, v) -> fields.put(k, v.name().getName()));
            out.put(l.name(), fields);
        });
        return raw(out);
    }

    /** The parts of a document by every way to list them. */
    static Object structure(Document doc) {
        Map<Object, Object> out = new TreeMap<>(), fields = new TreeMap<>();
        List<Object> texts = new ArrayList<>(), layers = new ArrayList<>();
        boolean has = true;
        for (Text t : doc.texts()) {
            texts.add(t.name());
            has &= doc.hasText(t.name()) && doc.text(t.name()) == t;
        }
        for (Layer l : doc.layers()) {
            layers.add(l.name());
            has &= doc.hasLayer(l.name()) && doc.layer(l.name()) == l;
            Map<Object, Object> fs = new TreeMap<>();
            l.schema().fields().forEach((k, v) -> fs.put(k, v.name().getName()));
            l.schema().fields().keySet().forEach(k -> { if (l.schema().getFieldType(k) == null) throw new IllegalStateException("no type of " + k); });
            fields.put(l.name(), fs);
        }
        boolean hasNot = false;
        for (String n : new String[] {"main", "other", "t", "l", "q", "nope"}) {
            hasNot |= !texts.contains(n) && (doc.hasText(n) || doc.text(n) != null);
            hasNot |= !layers.contains(n) && (doc.hasLayer(n) || doc.layer(n) != null);
        }
        out.put("texts", texts);
        out.put("layers", layers);
        out.put("fields", fields);
        out.put("schema", ((Bridge.Raw) schemaOf(doc.schema())).value);
        out.put("has", has);
        out.put("hasnot", hasNot);
        out.put("stream", (int) doc.layerStream().filter(l -> layers.contains(l.name())).count());
        out.put("textstream", (int) doc.textStream().filter(t -> texts.contains(t.name())).count());
        out.put("main", doc.maintext() == null ? null : doc.maintext().toString());
        return raw(out);
    }

    static Object addObject(Layer c, Object o) { return c.add((Node) o); }

    /** Canonical picture of the state of objects, private fields included, to tell real states apart. */
    static Object digest(Bridge b, List<?> targets) throws Exception {
        StringBuilder s = new StringBuilder();
        IdentityHashMap<Object, Integer> seen = new IdentityHashMap<>();
        for (Object t : targets) walk(t, s, seen);
        return raw(s.toString());
    }

    private static void walk(Object o, StringBuilder s, IdentityHashMap<Object, Integer> seen) throws Exception {
        if (o == null || o instanceof String || o instanceof Number || o instanceof Boolean || o instanceof Enum || o instanceof Character) {
            s.append(o).append(',');
            return;
        }
        Integer k = seen.get(o);
        if (k != null) {
            s.append('#').append(k).append(',');
            return;
        }
        seen.put(o, seen.size());
        Class<?> c = o.getClass();
        if (c.isArray()) {
            int n = java.lang.reflect.Array.getLength(o);
            s.append('[');
            for (int i = 0; i < n; i++) walk(java.lang.reflect.Array.get(o, i), s, seen);
            s.append("],");
        } else if (c.getName().startsWith("se.lth")) {
            s.append(c.getSimpleName()).append('{');
            for (Class<?> d = c; d != null && d != Object.class; d = d.getSuperclass())
                if (d.getName().startsWith("se.lth"))
                    for (java.lang.reflect.Field f : d.getDeclaredFields())
                        if (!java.lang.reflect.Modifier.isStatic(f.getModifiers())) {
                            f.setAccessible(true);
                            s.append(f.getName()).append('=');
                            walk(f.get(o), s, seen);
                        }
            s.append("},");
        } else if (o instanceof Map) {
            s.append("map{");
            TreeMap<String, Object> sorted = new TreeMap<>();
            for (Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) sorted.put(String.valueOf(e.getKey()), e.getValue());
            for (Map.Entry<String, Object> e : sorted.entrySet()) {
                s.append(e.getKey()).append('=');
                walk(e.getValue(), s, seen);
            }
            s.append("},");
        } else if (o instanceof Collection) {
            s.append('(');
            for (Object x : (Collection<?>) o) walk(x, s, seen);
            s.append("),");
        } else s.append(c.getSimpleName()).append(',');
    }
}
