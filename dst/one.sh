#!/bin/sh
# debug helper: one.sh MODULE SEED [N]
mkdir -p /tmp/simjava; [ /tmp/simjava/SimTracer.class -nt /verif/dst/java/SimTracer.java ] || javac -cp /usr/share/java/jython.jar -d /tmp/simjava /verif/dst/java/SimTracer.java
cd /tmp && JYTHONPATH=/opt/bgsite:/tmp/simjava exec timeout ${T:-120} /opt/jy/jy -B /verif/dst/one.py "$@"
