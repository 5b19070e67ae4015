# cluster.sh WORKDIR DRIVER N COMMAND...: a LAN of N+1 machines. Every node k gets network and mount
# namespaces of its own, a /tmp that is WORKDIR/node$k/tmp, the address 10.77.0.$k (node 1) or 10.77.0.$((20+k)),
# and an agent that runs programs there on request (WORKDIR/node$k/agent). COMMAND runs outside of the nodes, on
# a machine with the addresses 10.77.0.2 to 10.77.0.17 (and some with equal parts) on the same LAN.
set -e
W=$1; D=$2; N=$3; shift 3
mount -t tmpfs none /tmp 2>/dev/null || true
ip link set lo up
ip link add br0 type bridge
ip link set br0 up
k=1
while [ $k -le $N ]; do
  mkdir -p $W/node$k/tmp $W/node$k/home
  if [ $k = 1 ]; then a=10.77.0.1; else a=10.77.0.$((20+k)); fi
  unshare -nm --propagation private sh -c '
    mount --bind '$W/node$k'/tmp /tmp
    : > '$W/node$k'/ready
    while [ ! -e '$W/node$k'/go ]; do sleep 0.02; done
    ip link set lo up; ip link set eth0 up
    ip addr add '$a'/24 broadcast 10.77.0.255 dev eth0
    ip route add 255.255.255.255 dev eth0
    for n in 10.77.1.0 10.78.0.0 11.77.0.0; do ip route add $n/24 dev eth0; done
    export HOME='$W/node$k'/home
    exec '$D' agent '$W/node$k'/agent' &
  p=$!
  while [ ! -e $W/node$k/ready ]; do sleep 0.02; done
  ip link add v$k type veth peer name eth0 netns $p
  ip link set v$k master br0 up
  : > $W/node$k/go
  k=$((k+1))
done
i=2
while [ $i -le 17 ]; do ip addr add 10.77.0.$i/24 broadcast 10.77.0.255 dev br0; i=$((i+1)); done
for a in 10.77.1.1 10.78.0.1 11.77.0.1 10.77.1.2 10.78.0.2 11.77.0.3; do ip addr add $a/24 dev br0; done
ip route add 255.255.255.255 dev br0 src 10.77.0.2
k=1
while [ $k -le $N ]; do while [ ! -S $W/node$k/agent ]; do sleep 0.02; done; k=$((k+1)); done
# the agents end when the driver does, since they are in its process group and session
"$@"; rc=$?
kill $(jobs -p) 2>/dev/null || true
exit $rc
