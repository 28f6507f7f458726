package it.unimi.dsi.fastutil.ints;
public interface IntSortedSet extends IntSet {
    IntBidirectionalIterator iterator();
    int firstInt();
    int lastInt();
}
