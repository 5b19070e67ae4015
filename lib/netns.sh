# Runs a command in its own network and mount namespaces (see vf.drive): private loopback with the
# addresses of a small LAN, private /tmp.
set -e
mount -t tmpfs none /tmp 2>/dev/null || true
ip link set lo up
i=1
while [ $i -le 12 ]; do ip addr add 10.77.0.$i/24 dev lo; i=$((i+1)); done
for a in 10.77.1.1 10.78.0.1 11.77.0.1 10.77.1.2 10.78.0.2 11.77.0.3; do
  ip addr add $a/32 dev lo
  ip route replace local $a dev lo table local src 10.77.0.1
done
ip route add 255.255.255.255/32 dev lo src 10.77.0.1
exec "$@"
