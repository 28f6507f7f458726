package org.msgpack.core;

public class MessageFormatException extends MessagePackException {
    public MessageFormatException() { }
    public MessageFormatException(String message) { super(message); }
    public MessageFormatException(String message, Throwable cause) { super(message, cause); }
    public MessageFormatException(Throwable cause) { super(cause); }
}
