package it.unimi.dsi.fastutil.ints;

import java.util.AbstractSet;
import java.util.Collection;
import java.util.Iterator;
import java.util.NoSuchElementException;
import java.util.TreeSet;

public class IntAVLTreeSet extends AbstractSet<Integer> implements IntSortedSet {
    private final TreeSet<Integer> all = new TreeSet<>();

    public IntAVLTreeSet() { }
    public IntAVLTreeSet(Collection<? extends Integer> c) { all.addAll(c); }
    public IntAVLTreeSet(int[] a) { for (int k : a) all.add(k); }

    @Override public int size() { return all.size(); }
    @Override public boolean add(Integer k) { return all.add(k); }
    @Override public boolean contains(Object o) { return o instanceof Integer && all.contains(o); }
    @Override public boolean remove(Object o) { return o instanceof Integer && all.remove(o); }
    @Override public void clear() { all.clear(); }
    @Override public int firstInt() { return all.first(); }
    @Override public int lastInt() { return all.last(); }
    public Integer first() { return all.first(); }
    public Integer last() { return all.last(); }

    @Override
    public IntBidirectionalIterator iterator() {
        return new IntBidirectionalIterator() {
            private Integer before = null, after = all.isEmpty() ? null : all.first(), last = null;
            @Override public boolean hasNext() { return after != null; }
            @Override public boolean hasPrevious() { return before != null; }
            @Override public int nextInt() {
                if (after == null) throw new NoSuchElementException();
                last = before = after;
                after = all.higher(before);
                return before;
            }
            @Override public int previousInt() {
                if (before == null) throw new NoSuchElementException();
                last = after = before;
                before = all.lower(after);
                return after;
            }
            @Override public void remove() {
                if (last == null) throw new IllegalStateException();
                all.remove(last);
                if (last.equals(before)) before = all.lower(last);
                if (last.equals(after)) after = all.higher(last);
                last = null;
            }
        };
    }
}
