package it.unimi.dsi.fastutil.ints;

import java.util.AbstractSet;
import java.util.Collection;
import java.util.HashSet;
import java.util.Iterator;

public class IntOpenHashSet extends AbstractSet<Integer> implements IntSet {
    private final HashSet<Integer> all = new HashSet<>();
    public IntOpenHashSet() { }
    public IntOpenHashSet(Collection<? extends Integer> c) { all.addAll(c); }
    @Override public int size() { return all.size(); }
    @Override public boolean add(Integer k) { return all.add(k); }
    @Override public boolean contains(Object o) { return all.contains(o); }
    @Override public boolean remove(Object o) { return all.remove(o); }
    @Override public void clear() { all.clear(); }
    @Override public IntIterator iterator() {
        final Iterator<Integer> it = all.iterator();
        return new IntIterator() {
            @Override public boolean hasNext() { return it.hasNext(); }
            @Override public int nextInt() { return it.next(); }
            @Override public void remove() { it.remove(); }
        };
    }
}
