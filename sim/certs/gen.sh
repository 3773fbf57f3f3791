#!/bin/bash
# Makes the certificates used by C22. Only run by hand; the results are committed.
set -e
cd "$(dirname "$0")"
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkca() {
  openssl genpkey -algorithm ed25519 -out "$T/$1.key"
  openssl req -new -key "$T/$1.key" -subj "/CN=vzsim $1" -out "$T/$1.csr"
  mkdir -p "$T/$1"; : > "$T/$1/index"; echo 01 > "$T/$1/serial"
  cat > "$T/$1.cnf" <<C
[ca]
default_ca=d
[d]
dir=$T/$1
database=$T/$1/index
serial=$T/$1/serial
new_certs_dir=$T/$1
default_md=default
policy=p
unique_subject=no
rand_serial=no
[p]
commonName=supplied
[root]
basicConstraints=critical,CA:true
keyUsage=critical,keyCertSign,cRLSign
subjectKeyIdentifier=hash
C
  openssl ca -batch -notext -config "$T/$1.cnf" -selfsign -keyfile "$T/$1.key" -in "$T/$1.csr" -out "$1.pem" \
    -extensions root -startdate 20220101000000Z -enddate 20500101000000Z 2>/dev/null
}
leaf() { # file ca alg start end san eku
  case $3 in
    ed) openssl genpkey -algorithm ed25519 -out "$T/l.key" ;;
    ec) openssl genpkey -algorithm EC -pkeyopt ec_paramgen_curve:P-256 -out "$T/l.key" ;;
    rsa) openssl genpkey -algorithm RSA -pkeyopt rsa_keygen_bits:2048 -out "$T/l.key" 2>/dev/null ;;
  esac
  openssl req -new -key "$T/l.key" -subj "/CN=$1" -out "$T/l.csr"
  printf '[x]\nbasicConstraints=CA:false\nextendedKeyUsage=%s\n%s\n' "$7" "${6:+subjectAltName=$6}" > "$T/x.cnf"
  openssl ca -batch -notext -config "$T/$2.cnf" -cert "$2.pem" -keyfile "$T/$2.key" -in "$T/l.csr" -out "$T/l.pem" \
    -extfile "$T/x.cnf" -extensions x -startdate "$4" -enddate "$5" 2>/dev/null
  cat "$T/l.pem" "$T/l.key" > "$1.pem"
}
A="DNS:irc.example.net,DNS:*.wild.example.net,IP:192.0.2.1,IP:192.0.2.2,IP:192.0.2.3,IP:2001:db8::1,IP:2001:db8::2"
OK0=20220101000000Z OK1=20450101000000Z
for c in ca-a ca-b ca-sys; do mkca $c; done
leaf good-ed ca-a ed $OK0 $OK1 "$A" serverAuth
leaf good-ec ca-a ec $OK0 $OK1 "$A" serverAuth
leaf good-rsa ca-a rsa $OK0 $OK1 "$A" serverAuth
leaf other-ca ca-b ed $OK0 $OK1 "$A" serverAuth
leaf sys-ca ca-sys ed $OK0 $OK1 "$A" serverAuth
leaf wrong-name ca-a ed $OK0 $OK1 "DNS:evil.example.org,IP:198.51.100.9" serverAuth
leaf expired ca-a ed 20220101000000Z 20230101000000Z "$A" serverAuth
leaf early ca-a ed 20300101000000Z 20450101000000Z "$A" serverAuth
leaf usage ca-a ed $OK0 $OK1 "$A" clientAuth
leaf client1 ca-b ed $OK0 $OK1 "" clientAuth
leaf client2 ca-b ec $OK0 $OK1 "" clientAuth
openssl genpkey -algorithm ed25519 -out "$T/s.key"
openssl req -x509 -key "$T/s.key" -subj "/CN=self" -days 8000 -addext "subjectAltName=$A" -out "$T/s.pem" 
cat "$T/s.pem" "$T/s.key" > self.pem
# Broken files.
cat ca-a.pem ca-b.pem > both.pem
: > empty.pem
sed '2s/./!/' ca-a.pem > damaged.pem
sed -n '/BEGIN CERT/,/END CERT/p' client1.pem > nokey.pem
sed -n '/BEGIN PRIV/,/END PRIV/p' client1.pem > nocert.pem
# Key first, then certificate and its issuer.
(sed -n '/BEGIN PRIV/,/END PRIV/p' client2.pem; sed -n '/BEGIN CERT/,/END CERT/p' client2.pem; cat ca-b.pem) > chain.pem
