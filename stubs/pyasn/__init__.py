
'longest-prefix match over "prefix TAB asn" lines, as pyasn does'
import ipaddress


class pyasn(object):
    def __init__(self, ipasn_file, as_names_file=None, ipasn_string=None):
        s = ipasn_string if ipasn_string is not None else open(ipasn_file).read()
        self.nets = []
        for line in s.splitlines():
            line = line.strip()
            if not line or line.startswith(';') or line.startswith('#'):
                continue
            prefix, asn = line.split()
            self.nets.append((ipaddress.ip_network(unicode(prefix)), int(asn)))

    def lookup(self, ip):
        a = ipaddress.ip_address(unicode(ip))
        best = None
        for net, asn in self.nets:
            if net.version == a.version and a in net:
                if best is None or net.prefixlen > best[0].prefixlen:
                    best = (net, asn)
        if best is None:
            return (None, None)
        return (best[1], str(best[0]))
