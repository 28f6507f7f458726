package org.msgpack.core;

public class MessageIntegerOverflowException extends MessageTypeException {
    public MessageIntegerOverflowException() { }
    public MessageIntegerOverflowException(String message) { super(message); }
    public MessageIntegerOverflowException(String message, Throwable cause) { super(message, cause); }
    public MessageIntegerOverflowException(Throwable cause) { super(cause); }
}
