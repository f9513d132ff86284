'stand-in for Twisted 16.4: events are recorded, the harness fires them'
