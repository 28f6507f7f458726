import java.util.*;
import java.util.stream.*;
import se.lth.cs.docria.*;
import se.lth.cs.docria.algorithms.*;

/** Span algorithms over nodes made from offsets; nodes are reported by their position in the argument. */
class Algos {
    static int n(Object o) { return (int) (long) (Long) o; }

    static Layer layer(Document doc, String name) {
        return doc.add(Layer.builder(name).addField("text", DataTypes.span("main")).addField("alt", DataTypes.span("main")).build());
    }

    /** One node per entry: nil for a node without spans, [start, stop] for text = [start, stop) and alt = [start + 1, stop + 1). */
    static List<Node> nodes(Document doc, Layer l, List<?> spans) {
        List<Node> out = new ArrayList<>();
        for (Object s : spans) {
            Node.Builder b = Node.builder(l);
            if (s != null) {
                int start = n(((List<?>) s).get(0)), stop = n(((List<?>) s).get(1));
                b.put("text", doc.text("main").span(start, stop));
                b.put("alt", doc.text("main").span(start + 1, stop + 1));
            }
            Node node = b.build();
            l.add(node);
            out.add(node);
        }
        return out;
    }

    static int index(List<Node> in, Node node) {
        for (int k = 0; k < in.size(); k++) if (in.get(k) == node) return k;
        return -1;
    }

    static Document document() {
        Document doc = new Document();
        doc.add(new Text("main", String.join("", Collections.nCopies(500, "0123456789"))));
        return doc;
    }

    /** [form, resolution, keep empty, group field, groups, [[layer, field, spans]...]] -> [[group index, {layer: [index]}]...] */
    static Object group(Document doc, Map<String, List<Node>> made, List<?> c) {
        int form = n(c.get(0));
        String field = (String) c.get(3);
        Layer gl = doc.layer("groups");
        List<Node> groups = made.get("groups");
        GroupBySpan.Builder b;
        boolean plain = field.equals("text");
        switch (form) {
            case 0: b = plain ? GroupBySpan.builder(gl) : GroupBySpan.builder(gl, field); break;
            case 1: b = plain ? GroupBySpan.builder(groups) : GroupBySpan.builder(groups, field); break;
            case 2: b = plain ? GroupBySpan.builder(doc, "groups") : GroupBySpan.builder(doc, "groups", field); break;
            case 3: b = GroupBySpan.builder(gl, field); break;
            case 4: b = GroupBySpan.builder(groups, field); break;
            default: b = GroupBySpan.builder(doc, "groups", field);
        }
        Map<String, String> names = new HashMap<>();
        for (Object x : (List<?>) c.get(5)) {
            List<?> l = (List<?>) x;
            String name = (String) l.get(0), f = (String) l.get(1);
            Layer layer = doc.layer(name);
            List<Node> all = made.get(name);
            boolean std = f.equals("text");
            switch (form) {
                case 0: b = std ? b.group(layer) : b.group(layer, f); break;
                case 1: b = std ? b.group(name, all) : b.group(name, all, f); break;
                case 2: b = std ? b.group(doc, name) : b.group(doc, name, f); break;
                case 3: b = std ? b.group(name, layer) : b.group(name, layer, f); break;
                case 4: b = b.group("as " + name, all, f); names.put("as " + name, name); break;
                default: b = b.group("as " + name, layer, f); names.put("as " + name, name);
            }
        }
        if (c.get(1) != null) b = b.resolution((Boolean) c.get(1) ? GroupBySpan.Resolution.COVER : GroupBySpan.Resolution.INTERSECT);
        if (c.get(2) != null) b = b.includeEmptyGroups((Boolean) c.get(2));
        List<Object> out = new ArrayList<>();
        for (GroupBySpan.Group g : b.solve()) {
            Map<Object, Object> content = new TreeMap<>();
            g.content.forEach((name, ns) -> {
                String l = names.getOrDefault(name, name);
                content.put(l, ns.stream().map(x -> index(made.get(l), x)).collect(Collectors.toList()));
            });
            out.add(Arrays.asList(index(groups, g.node), content, g.empty()));
        }
        return out;
    }

    /** [[group spans], [[layer, spans]...]], then the calls. */
    static Object grouping(Bridge b, List<?> args) {
        List<Object> out = new ArrayList<>();
        for (Object o : (List<?>) args.get(0)) {
            List<?> one = (List<?>) o;
            Document doc = document();
            Map<String, List<Node>> made = new HashMap<>();
            made.put("groups", nodes(doc, layer(doc, "groups"), (List<?>) one.get(0)));
            for (Object x : (List<?>) one.get(1)) {
                List<?> l = (List<?>) x;
                made.put((String) l.get(0), nodes(doc, layer(doc, (String) l.get(0)), (List<?>) l.get(1)));
            }
            List<Object> res = new ArrayList<>();
            for (Object call : (List<?>) one.get(2)) {
                try {
                    res.add(group(doc, made, (List<?>) call));
                } catch (RuntimeException e) {
                    res.add(e.toString());
                }
            }
            out.add(res);
        }
        return Helpers.raw(out);
    }

    /** Per list of segments: what resolve keeps, as indices; of nodes with these spans (by both fields) and of node spans. */
    static Object dominant(Bridge b, List<?> args) {
        String how = (String) args.get(0);
        List<Object> out = new ArrayList<>();
        for (Object o : (List<?>) args.get(1)) {
            List<?> segs = (List<?>) o;
            if (how.equals("segments")) {
                List<DominantRight.Segment<Integer>> all = new ArrayList<>();
                int k = 0;
                for (Object s : segs) all.add(new DominantRight.Segment<>(n(((List<?>) s).get(0)), n(((List<?>) s).get(1)), k++));
                List<DominantRight.Segment<Integer>> copy = new ArrayList<>(all);
                out.add(DominantRight.resolve(all));
                if (!all.equals(copy)) throw new IllegalStateException("the argument was changed");
            } else if (how.equals("nodes")) {
                Document doc = document();
                Layer l = layer(doc, "l");
                List<Node> nodes = nodes(doc, l, segs);
                out.add(Arrays.asList(DominantRight.resolve(nodes, "text").stream().map(x -> index(nodes, x)).collect(Collectors.toList()),
                                      DominantRight.resolve(nodes, "alt").stream().map(x -> index(nodes, x)).collect(Collectors.toList()),
                                      DominantRight.resolve(l, "text").stream().map(x -> index(nodes, x)).collect(Collectors.toList())));
            } else {
                Document doc = document();
                Layer tokens = doc.add(Layer.builder("tokens").addField("k", DataTypes.INT_32).build());
                List<Node> made = new ArrayList<>();
                for (int k = 0; k < 8; k++) {
                    Node node = Node.builder(tokens).build();
                    tokens.add(node);
                    made.add(node);
                }
                Layer l = doc.add(Layer.builder("spans").addField("s", DataTypes.nodespan("tokens")).build());
                List<Node> nodes = new ArrayList<>();
                for (Object s : segs) {
                    Node.Builder nb = Node.builder(l);
                    if (s != null) nb.put("s", new NodeSpan(made.get(n(((List<?>) s).get(0))), made.get(n(((List<?>) s).get(1)))));
                    Node node = nb.build();
                    l.add(node);
                    nodes.add(node);
                }
                out.add(Arrays.asList(DominantRight.resolveNodespans(nodes, "s").stream().map(x -> index(nodes, x)).collect(Collectors.toList()),
                                      DominantRight.resolveNodespans(l, "s").stream().map(x -> index(nodes, x)).collect(Collectors.toList())));
            }
        }
        return Helpers.raw(out);
    }

    /** Everything two spans of a text say of each other. */
    static Object pairs(Bridge b, List<?> args) {
        String content = (String) args.get(0);
        Text t = new Text("main", content);
        List<Object> out = new ArrayList<>();
        List<Span> all = new ArrayList<>();
        for (int i = 0; i <= content.length(); i++)
            for (int j = i; j <= content.length(); j++) all.add(t.span(i, j));
        for (Span x : all) {
            List<Object> subs = new ArrayList<>(), chars = new ArrayList<>();
            for (int i = 0; i <= x.length(); i++)
                for (int j = i; j <= x.length(); j++) subs.add(x.subSequence(i, j).toString());
            for (int i = 0; i < x.length(); i++) chars.add(String.valueOf(x.charAt(i)));
            out.add(Arrays.asList(x.start(), x.stop(), x.length(), x.toString(), x.stringValue(), chars, subs,
                                  x.chars().mapToObj(c -> String.valueOf((char) c)).collect(Collectors.joining()),
                                  x.codePoints().mapToObj(c -> new String(Character.toChars(c))).collect(Collectors.joining()), x.source() == t));
        }
        List<Object> rel = new ArrayList<>();
        for (Span x : all)
            for (Span y : all) {
                Span z = t.span(y.start(), y.stop());
                rel.add(Arrays.asList(x.covers(z), x.intersects(z), x.equals(z), !x.equals(z) || x.hashCode() == z.hashCode(), Integer.signum(x.compareTo(z))));
            }
        return Helpers.raw(Arrays.asList(out, rel));
    }
}
