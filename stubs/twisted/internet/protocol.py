
class BaseProtocol(object):
    connected = 0
    transport = None

    def makeConnection(self, transport):
        self.connected = 1
        self.transport = transport
        self.connectionMade()

    def connectionMade(self):
        pass


class Protocol(BaseProtocol):
    def dataReceived(self, data):
        pass

    def connectionLost(self, reason=None):
        pass


class Factory(object):
    protocol = None
    numPorts = 0
    noisy = True

    def doStart(self):
        pass

    def startFactory(self):
        pass

    def stopFactory(self):
        pass

    def buildProtocol(self, addr):
        p = self.protocol()
        p.factory = self
        return p


class ClientFactory(Factory):
    def startedConnecting(self, connector):
        pass

    def clientConnectionFailed(self, connector, reason):
        pass

    def clientConnectionLost(self, connector, reason):
        pass


class ReconnectingClientFactory(ClientFactory):
    maxDelay = 3600
    initialDelay = 1.0
    factor = 2.7182818284590451
    jitter = 0.11962656472
    delay = initialDelay
    retries = 0
    maxRetries = None
    _callID = None
    connector = None
    clock = None
    continueTrying = 1

    def clientConnectionFailed(self, connector, reason):
        if self.continueTrying:
            self.connector = connector
            self.retry()

    def clientConnectionLost(self, connector, unused_reason):
        if self.continueTrying:
            self.connector = connector
            self.retry()

    def retry(self, connector=None):
        if not self.continueTrying:
            return
        if connector is None:
            if self.connector is None:
                raise ValueError("no connector to retry")
            connector = self.connector
        self.retries += 1
        from twisted.internet import reactor
        self._callID = reactor.callLater(self.delay, connector.connect)

    def stopTrying(self):
        if self._callID:
            self._callID.cancel()
            self._callID = None
        self.continueTrying = 0
        if self.connector:
            self.connector.stopConnecting()

    def resetDelay(self):
        self.delay = self.initialDelay
        self.retries = 0
        self._callID = None
        self.continueTrying = 1


class ServerFactory(Factory):
    pass
