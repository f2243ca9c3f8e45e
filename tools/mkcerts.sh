#!/bin/bash
# Regenerates vf/certs (committed; only needed once).
set -e
out=$(cd "$(dirname "$0")/.." && pwd)/vf/certs
mkdir -p "$out"
t=$(mktemp -d)
cd "$t"
cat > ca.cnf <<'C'
[ca]
default_ca=d
[d]
database=index.txt
serial=serial
new_certs_dir=.
default_md=sha256
policy=p
unique_subject=no
copy_extensions=none
[p]
commonName=supplied
[req]
distinguished_name=dn
[dn]
[v3ca]
basicConstraints=critical,CA:true
keyUsage=critical,keyCertSign,cRLSign
subjectKeyIdentifier=hash
authorityKeyIdentifier=keyid
[server]
basicConstraints=critical,CA:false
keyUsage=critical,digitalSignature
extendedKeyUsage=serverAuth
subjectKeyIdentifier=hash
authorityKeyIdentifier=keyid
subjectAltName=$ENV::SAN
[nosan]
basicConstraints=critical,CA:false
keyUsage=critical,digitalSignature
extendedKeyUsage=serverAuth
subjectKeyIdentifier=hash
authorityKeyIdentifier=keyid
[client]
basicConstraints=critical,CA:false
keyUsage=critical,digitalSignature
extendedKeyUsage=clientAuth
subjectKeyIdentifier=hash
authorityKeyIdentifier=keyid
C
export SAN=DNS:x
touch index.txt; echo 1000 > serial
key() { openssl ecparam -name prime256v1 -genkey -noout -out $1.key; }
csr() { openssl req -new -config ca.cnf -key $1.key -subj "/CN=$2" -out $1.csr; }
ca() { # name
  key $1; csr $1 "vf $1"
  openssl ca -batch -notext -config ca.cnf -selfsign -keyfile $1.key -in $1.csr -extensions v3ca -startdate 20000101000000Z -enddate 21500101000000Z -out $1.pem 2>/dev/null
}
sign() { # name cn ext ca start end san
  key $1; csr $1 "$2"
  SAN=${7:-DNS:x} openssl ca -batch -notext -config ca.cnf -keyfile $4.key -cert $4.pem -in $1.csr -extensions $3 -startdate $5 -enddate $6 -out $1.pem 2>/dev/null
}
A=20000101000000Z; B=21500101000000Z
ca ca; ca otherca; ca clientca; ca otherclientca
sign inter "vf inter" v3ca ca $A $B
sign good "good" server ca $A $B "IP:127.0.0.1,DNS:localhost"
sign good2 "good2" server ca $A $B "IP:127.0.0.1,DNS:localhost"
sign ip "ip" server ca $A $B "IP:127.0.0.1"
sign dns "dns" server ca $A $B "DNS:localhost"
sign chain "chain" server inter $A $B "IP:127.0.0.1,DNS:localhost"
sign otherissuer "good" server otherca $A $B "IP:127.0.0.1,DNS:localhost"
sign expired "good" server ca $A 20100101000000Z "IP:127.0.0.1,DNS:localhost"
sign future "good" server ca 21400101000000Z $B "IP:127.0.0.1,DNS:localhost"
sign othername "good" server ca $A $B "IP:127.0.0.2,DNS:device.example"
sign cnonly "127.0.0.1" nosan ca $A $B
key self; csr self "127.0.0.1"
SAN=IP:127.0.0.1,DNS:localhost openssl ca -batch -notext -config ca.cnf -selfsign -keyfile self.key -in self.csr -extensions server -startdate $A -enddate $B -out self.pem 2>/dev/null
sign client1 "client1" client clientca $A $B
sign client2 "client2" client clientca $A $B
sign clientother "clientother" client otherclientca $A $B
for n in good good2 ip dns otherissuer expired future othername cnonly self client1 client2 clientother; do cat $n.pem $n.key > "$out/$n.pem"; done
cat chain.pem inter.pem chain.key > "$out/chain.pem"
for n in client1 client2 clientother; do cp $n.pem "$out/$n.crt"; cp $n.key "$out/$n.key"; done
for n in ca otherca clientca; do cp $n.pem "$out/$n.pem"; done
cat otherca.pem ca.pem > "$out/bundle.pem"
cd /
rm -rf "$t"
