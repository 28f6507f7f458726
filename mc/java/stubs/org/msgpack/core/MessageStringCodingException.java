package org.msgpack.core;

public class MessageStringCodingException extends MessagePackException {
    public MessageStringCodingException() { }
    public MessageStringCodingException(String message) { super(message); }
    public MessageStringCodingException(String message, Throwable cause) { super(message, cause); }
    public MessageStringCodingException(Throwable cause) { super(cause); }
}
