package it.unimi.dsi.fastutil.ints;
import java.util.ListIterator;
public interface IntListIterator extends IntBidirectionalIterator, ListIterator<Integer> {
    default Integer next() { return nextInt(); }
    default Integer previous() { return previousInt(); }
}
