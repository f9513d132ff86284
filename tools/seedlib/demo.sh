#!/bin/bash
# exit 0 if the property holds in the tree at the current directory
here=$(cd "$(dirname "$0")" && pwd)
J=/usr/share/java
export JYTHONPATH="$here:$here/stubs:/opt/jysite:$PWD" PYTHONDONTWRITEBYTECODE=1 PRIVCOUNT_DIRECTORY="$PWD" LC_ALL=C.UTF-8
unset PYTHONPATH PYTHONHOME
exec timeout 250 /usr/bin/java -Xmx1500m -Xss8m -XX:+UseSerialGC -Djava.net.preferIPv4Stack=true \
    -cp "$J/jython.jar:$J/bcprov.jar:$J/bcpkix.jar:$J/bcutil.jar" \
    -Dpython.home=/usr/share/jython -Dpython.executable=/usr/bin/jython -Dpython.cachedir.skip=true \
    org.python.util.jython -B "$here/demo.py"
