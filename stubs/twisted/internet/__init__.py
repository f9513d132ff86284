
from twisted.internet import reactor
