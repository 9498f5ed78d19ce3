from zmq import ZMQError, Again, ContextTerminated
