
class ReactorNotRunning(RuntimeError):
    pass


class ConnectionLost(Exception):
    pass


class ConnectionDone(Exception):
    pass


class NotConnectingError(RuntimeError):
    pass
