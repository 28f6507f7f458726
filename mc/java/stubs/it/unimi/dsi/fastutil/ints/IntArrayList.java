package it.unimi.dsi.fastutil.ints;

import java.util.AbstractList;
import java.util.ArrayList;
import java.util.Collection;
import java.util.List;
import java.util.ListIterator;

public class IntArrayList extends AbstractList<Integer> implements IntList {
    private final List<Integer> all = new ArrayList<>();

    public IntArrayList() { }
    public IntArrayList(int capacity) {
        if (capacity < 0)
            throw new IllegalArgumentException("Initial capacity (" + capacity + ") is negative");
    }
    public IntArrayList(Collection<? extends Integer> c) { all.addAll(c); }
    public IntArrayList(int[] a) { for (int k : a) all.add(k); }

    @Override public Integer get(int i) { return all.get(i); }
    @Override public int getInt(int i) { return all.get(i); }
    @Override public int size() { return all.size(); }
    @Override public boolean add(Integer k) { return all.add(k); }
    @Override public boolean add(int k) { return all.add(k); }
    @Override public void add(int i, Integer k) { all.add(i, k); }
    @Override public void add(int i, int k) { all.add(i, Integer.valueOf(k)); }
    @Override public Integer set(int i, Integer k) { return all.set(i, k); }
    @Override public int set(int i, int k) { return all.set(i, Integer.valueOf(k)); }
    @Override public int removeInt(int i) { return all.remove(i); }
    @Override public Integer remove(int i) { return all.remove(i); }
    @Override public boolean rem(int k) { return all.remove(Integer.valueOf(k)); }
    @Override public void clear() { all.clear(); }
    public void trim() { }
    @Override public IntListIterator iterator() { return listIterator(0); }
    @Override public IntListIterator listIterator() { return listIterator(0); }

    @Override
    public IntListIterator listIterator(int from) {
        final ListIterator<Integer> it = all.listIterator(from);
        return new IntListIterator() {
            @Override public boolean hasNext() { return it.hasNext(); }
            @Override public int nextInt() { return it.next(); }
            @Override public boolean hasPrevious() { return it.hasPrevious(); }
            @Override public int previousInt() { return it.previous(); }
            @Override public int nextIndex() { return it.nextIndex(); }
            @Override public int previousIndex() { return it.previousIndex(); }
            @Override public void remove() { it.remove(); }
            @Override public void set(Integer k) { it.set(k); }
            @Override public void add(Integer k) { it.add(k); }
        };
    }
}
