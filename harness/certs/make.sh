#!/bin/bash
# Makes the test certificates (committed; run once). Valid from 2000 to 2100.
set -e
cd "$(dirname "$0")"
w=$(mktemp -d)
ca() { # name
  openssl genpkey -algorithm ed25519 -out $w/$1.key
  openssl req -x509 -new -key $w/$1.key -subj "/CN=$1" -not_before 20000101000000Z -not_after 21000101000000Z -addext basicConstraints=critical,CA:true -out $1.pem 2>/dev/null || {
    touch $w/index.txt; printf '[ca]\ndefault_ca=d\n[d]\nnew_certs_dir=%s\ndatabase=%s/index.txt\nrand_serial=yes\ndefault_md=default\npolicy=p\nunique_subject=no\n[p]\ncommonName=supplied\n[v]\nbasicConstraints=critical,CA:true\nkeyUsage=keyCertSign,cRLSign\nsubjectKeyIdentifier=hash\n' $w $w > $w/c.cnf
    openssl req -new -key $w/$1.key -subj "/CN=$1" -out $w/$1.csr
    openssl ca -batch -config $w/c.cnf -selfsign -keyfile $w/$1.key -in $w/$1.csr -out $1.pem -extensions v -startdate 20000101000000Z -enddate 21000101000000Z -notext 2>/dev/null
  }
}
leaf() { # name ca san alg start end
  if [ "$4" = ec ]; then openssl genpkey -algorithm EC -pkeyopt ec_paramgen_curve:P-256 -out $1.key; else openssl genpkey -algorithm ed25519 -out $1.key; fi
  printf '[ca]\ndefault_ca=d\n[d]\nnew_certs_dir=%s\ndatabase=%s/index.txt\nrand_serial=yes\ndefault_md=default\npolicy=p\nunique_subject=no\n[p]\ncommonName=supplied\n[v]\nbasicConstraints=critical,CA:%s\nsubjectAltName=%s\n' $w $w ${7:-false} "$3" > $w/l.cnf
  touch $w/index.txt
  openssl req -new -key $1.key -subj "/CN=$1" -out $w/$1.csr
  openssl ca -batch -config $w/l.cnf -keyfile $w/$2.key -cert $2.pem -in $w/$1.csr -out $1.pem -extensions v -startdate $5 -enddate $6 -notext 2>/dev/null
  cp $1.key $w/
}
A=20000101000000Z; Z=21000101000000Z
ca root; ca stranger
leaf localhost root DNS:localhost,IP:127.0.0.1 ed $A $Z
leaf imap root DNS:imap.test ec $A $Z
leaf other root DNS:other.test ed $A $Z
leaf old root DNS:imap.test ed $A 20010101000000Z
leaf untrusted stranger DNS:imap.test ed $A $Z
leaf middle root DNS:middle.test ed $A $Z true
leaf deep middle DNS:imap.test ed $A $Z
rm -rf "$w" 
