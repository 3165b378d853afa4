#!/bin/bash
# Makes the committed test certificates in /verif/tls (only needed once).
set -e
cd "$(dirname "$0")/../tls"
NAMES="DNS:rrdp.example.net,DNS:repo.example.net,DNS:other.example.net,DNS:ta.example.net,DNS:child.example.net,DNS:h.example,DNS:other.example,DNS:mirror.example,DNS:localhost"
T=$(mktemp -d)
cat > $T/ca.cnf <<C
[ca]
default_ca=d
[d]
database=$T/index
new_certs_dir=$T
serial=$T/serial
default_md=sha256
policy=p
unique_subject=no
x509_extensions=ext
[p]
commonName=supplied
[ext]
subjectAltName=\${ENV::SAN}
extendedKeyUsage=serverAuth
[req]
distinguished_name=dn
prompt=no
[dn]
CN=x
[v3ca]
basicConstraints=critical,CA:true
keyUsage=critical,keyCertSign,cRLSign
C
: > $T/index; echo 01 > $T/serial
export SAN=$NAMES
ca() { # name
  openssl req -config $T/ca.cnf -newkey ec -pkeyopt ec_paramgen_curve:P-256 -nodes -keyout $T/$1.key -subj "/CN=$1" -out $T/$1.csr
  openssl ca -batch -config $T/ca.cnf -selfsign -keyfile $T/$1.key -in $T/$1.csr -out $1.pem -notext -startdate 20150101000000Z -enddate 21150101000000Z -extensions v3ca
}
leaf() { # file, issuer, SAN, from, to
  openssl req -config $T/ca.cnf -newkey ec -pkeyopt ec_paramgen_curve:P-256 -nodes -keyout $T/l.key -subj "/CN=$1" -out $T/l.csr
  SAN=$3 openssl ca -batch -config $T/ca.cnf -keyfile $T/$2.key -cert $2.pem -in $T/l.csr -out $T/l.pem -notext -startdate $4 -enddate $5
  cat $T/l.key $T/l.pem > $1.pem
}
ca ca; ca otherca
leaf good ca "$NAMES" 20150101000000Z 21150101000000Z
leaf wrongname ca "DNS:wrong.example" 20150101000000Z 21150101000000Z
leaf expired ca "$NAMES" 20150101000000Z 20200101000000Z
leaf future ca "$NAMES" 20990101000000Z 21150101000000Z
leaf unknownca otherca "$NAMES" 20150101000000Z 21150101000000Z
openssl req -config $T/ca.cnf -newkey ec -pkeyopt ec_paramgen_curve:P-256 -nodes -keyout $T/l.key -subj "/CN=self" -out $T/l.csr
openssl ca -batch -config $T/ca.cnf -selfsign -keyfile $T/l.key -in $T/l.csr -out $T/l.pem -notext -startdate 20150101000000Z -enddate 21150101000000Z
cat $T/l.key $T/l.pem > selfsigned.pem
rm -rf "$T"
