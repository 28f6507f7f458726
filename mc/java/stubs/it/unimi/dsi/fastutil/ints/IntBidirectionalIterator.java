package it.unimi.dsi.fastutil.ints;
public interface IntBidirectionalIterator extends IntIterator {
    boolean hasPrevious();
    int previousInt();
    default Integer previous() { return previousInt(); }
}
