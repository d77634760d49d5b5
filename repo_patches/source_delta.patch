From ff717a9bec6ae122b13dcda899a14993dd60a31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:45 +0000
Subject: [PATCH 01/87] fix: client rejects an empty server certificate list
 instead of panicking

---
 client-state-machine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index d8464a1..76ffba8 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -815,6 +815,11 @@ func (state clientStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertDecodeError
 	}
 
+	if len(state.serverCertificate.CertificateList) == 0 {
+		logf(logTypeHandshake, "[ClientStateWaitCV] Server sent an empty certificate list")
+		return nil, nil, AlertDecodeError
+	}
+
 	hcv := state.handshakeHash.Sum(nil)
 	logf(logTypeHandshake, "Handshake Hash to be verified: [%d] %x", len(hcv), hcv)
 
-- 
2.43.0


From 5b018eda4ddb4c6b1f47759719a6d46ce93bcb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 02/87] fix: client rejects a CertificateVerify scheme it did
 not offer

---
 client-state-machine.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 76ffba8..cc3cbfc 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -815,6 +815,16 @@ func (state clientStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertDecodeError
 	}
 
+	// The server may only use a signature scheme that we offered
+	schemeOffered := false
+	for _, scheme := range state.Config.SignatureSchemes {
+		schemeOffered = schemeOffered || (scheme == certVerify.Algorithm)
+	}
+	if !schemeOffered {
+		logf(logTypeHandshake, "[ClientStateWaitCV] Server used a signature scheme we did not offer [%04x]", certVerify.Algorithm)
+		return nil, nil, AlertIllegalParameter
+	}
+
 	if len(state.serverCertificate.CertificateList) == 0 {
 		logf(logTypeHandshake, "[ClientStateWaitCV] Server sent an empty certificate list")
 		return nil, nil, AlertDecodeError
-- 
2.43.0


From 0a41a4810f63335b7439a3dc559b87fe2925d7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:56 +0000
Subject: [PATCH 03/87] fix: client accepts only the pre-shared key it offered,
 with its hash

---
 client-state-machine.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index cc3cbfc..31c1947 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -454,7 +454,12 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertDecodeError
 	}
 
-	if foundExts[ExtensionTypePreSharedKey] && (serverPSK.SelectedIdentity == 0) {
+	if foundExts[ExtensionTypePreSharedKey] {
+		// The server can only select the one PSK that we offered, if any
+		if state.earlySecret == nil || serverPSK.SelectedIdentity != 0 {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Server selected a PSK that was not offered [%d]", serverPSK.SelectedIdentity)
+			return nil, nil, AlertIllegalParameter
+		}
 		state.Params.UsingPSK = true
 	}
 
@@ -495,6 +500,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		if params.Hash != state.earlyHash {
 			logf(logTypeCrypto, "Change of hash between early and normal init early=[%02x] suite=[%04x] hash=[%02x]",
 				state.earlyHash, suite, params.Hash)
+			return nil, nil, AlertIllegalParameter
 		}
 
 		earlySecret = state.earlySecret
-- 
2.43.0


From a59d153f912367ffce85a67e6cd1aa443f10c790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:01 +0000
Subject: [PATCH 04/87] fix: client requires the key exchange its offer calls
 for

---
 client-state-machine.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 31c1947..da3e568 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -473,7 +473,31 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		}
 
 		state.Params.UsingDH = true
-		dhSecret, _ = keyAgreement(sks.Group, sks.KeyExchange, priv)
+		dhSecret, err = keyAgreement(sks.Group, sks.KeyExchange, priv)
+		if err != nil {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Invalid key share [%v]", err)
+			return nil, nil, AlertIllegalParameter
+		}
+	}
+
+	// The server has to contribute the key exchange that our offer calls for:
+	// a certificate needs DH, and a PSK one of the modes that we listed.
+	if state.Params.UsingPSK {
+		mode := PSKModeKE
+		if state.Params.UsingDH {
+			mode = PSKModeDHEKE
+		}
+		modeOffered := false
+		for _, offered := range state.Config.PSKModes {
+			modeOffered = modeOffered || (offered == mode)
+		}
+		if !modeOffered {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Server selected a PSK mode that was not offered [%v]", mode)
+			return nil, nil, AlertIllegalParameter
+		}
+	} else if !state.Params.UsingDH {
+		logf(logTypeHandshake, "[ClientStateWaitSH] Server sent neither a key share nor a PSK")
+		return nil, nil, AlertMissingExtension
 	}
 
 	suite := sh.CipherSuite
-- 
2.43.0


From f367caf2ee6f990212102e28a5828d137cb8d2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 05/87] fix: key agreement rejects invalid and degenerate
 public keys

---
 crypto.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crypto.go b/crypto.go
index 4fa59a2..ddd8f16 100644
--- a/crypto.go
+++ b/crypto.go
@@ -268,6 +268,9 @@ func keyAgreement(group NamedGroup, pub []byte, priv []byte) ([]byte, error) {
 
 		crv := curveFromNamedGroup(group)
 		pubX, pubY := elliptic.Unmarshal(crv, pub)
+		if pubX == nil {
+			return nil, fmt.Errorf("tls.keyagreement: Invalid public key")
+		}
 		x, _ := crv.Params().ScalarMult(pubX, pubY, priv)
 		xBytes := x.Bytes()
 
@@ -286,6 +289,11 @@ func keyAgreement(group NamedGroup, pub []byte, priv []byte) ([]byte, error) {
 		p := primeFromNamedGroup(group)
 		x := big.NewInt(0).SetBytes(priv)
 		Y := big.NewInt(0).SetBytes(pub)
+		// RFC 8446 4.2.8.1: 1 < Y < p-1
+		one := big.NewInt(1)
+		if Y.Cmp(one) <= 0 || Y.Cmp(new(big.Int).Sub(p, one)) >= 0 {
+			return nil, fmt.Errorf("tls.keyagreement: Invalid public key")
+		}
 		ZBytes := big.NewInt(0).Exp(Y, x, p).Bytes()
 
 		ret := make([]byte, numBytes)
@@ -302,6 +310,10 @@ func keyAgreement(group NamedGroup, pub []byte, priv []byte) ([]byte, error) {
 		copy(private[:], priv)
 		copy(public[:], pub)
 		curve25519.ScalarMult(&ret, &private, &public)
+		// RFC 8446 7.4.2: the shared secret must not be all zero
+		if ret == [32]byte{} {
+			return nil, fmt.Errorf("tls.keyagreement: Invalid public key")
+		}
 
 		return ret[:], nil
 
-- 
2.43.0


From d8d7c4a8c18021660afe565e154d336837cc7161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:50 +0000
Subject: [PATCH 06/87] fix: client accepts only a cipher suite that its hello
 offered

---
 client-state-machine.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index da3e568..2a0413a 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -278,6 +278,8 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		OfferedDH:  offeredDH,
 		OfferedPSK: offeredPSK,
 
+		offeredSuites: ch.CipherSuites,
+
 		earlySecret: earlySecret,
 		earlyHash:   earlyHash,
 
@@ -308,6 +310,8 @@ type clientStateWaitSH struct {
 	OfferedPSK PreSharedKey
 	PSK        []byte
 
+	offeredSuites []CipherSuite
+
 	earlySecret []byte
 	earlyHash   crypto.Hash
 
@@ -361,9 +365,9 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		logf(logTypeHandshake, "[ClientStateWaitSH] unsupported version [%x]", supportedVersions.Versions[0])
 		return nil, nil, AlertProtocolVersion
 	}
-	// 3. Check that the server provided a supported ciphersuite
+	// 3. Check that the server selected a ciphersuite that we offered
 	supportedCipherSuite := false
-	for _, suite := range state.Config.CipherSuites {
+	for _, suite := range state.offeredSuites {
 		supportedCipherSuite = supportedCipherSuite || (suite == sh.CipherSuite)
 	}
 	if !supportedCipherSuite {
-- 
2.43.0


From 857e40e87725fd66393f4e496ca883c798873da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 07/87] fix: a hello retry does not change the shared Config

---
 client-state-machine.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 2a0413a..5ae456c 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -56,6 +56,7 @@ type clientStateStart struct {
 	Params ConnectionParameters
 
 	cookie            []byte
+	retryCipherSuite  CipherSuite
 	firstClientHello  *HandshakeMessage
 	helloRetryRequest *HandshakeMessage
 	hsCtx             *HandshakeContext
@@ -107,6 +108,10 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		LegacyVersion: wireVersion(state.hsCtx.hIn),
 		CipherSuites:  state.Config.CipherSuites,
 	}
+	if state.helloRetryRequest != nil {
+		// Narrow the offered ciphersuites to the server-provided one
+		ch.CipherSuites = []CipherSuite{state.retryCipherSuite}
+	}
 	_, err := prng.Read(ch.Random[:])
 	if err != nil {
 		logf(logTypeHandshake, "[ClientStateStart] Error creating ClientHello random [%v]", err)
@@ -381,9 +386,6 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		// This is actually HRR.
 		hrr := sh
 
-		// Narrow the supported ciphersuites to the server-provided one
-		state.Config.CipherSuites = []CipherSuite{hrr.CipherSuite}
-
 		// Handle external extensions.
 		if state.Config.ExtensionHandler != nil {
 			err := state.Config.ExtensionHandler.Receive(HandshakeTypeHelloRetryRequest, &hrr.Extensions)
@@ -429,6 +431,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 			Opts:              state.Opts,
 			hsCtx:             state.hsCtx,
 			cookie:            serverCookie.Cookie,
+			retryCipherSuite:  hrr.CipherSuite,
 			firstClientHello:  firstClientHello,
 			helloRetryRequest: hm,
 		}, []HandshakeAction{ResetOut{1}}, AlertNoAlert
-- 
2.43.0


From 477bdc2edfe544bb4f8aeec5b84361b323492045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 08/87] fix: client rejects a second hello retry

---
 client-state-machine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 5ae456c..1d2cd2d 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -386,6 +386,11 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		// This is actually HRR.
 		hrr := sh
 
+		if state.helloRetryRequest != nil {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Second HelloRetryRequest")
+			return nil, nil, AlertUnexpectedMessage
+		}
+
 		// Handle external extensions.
 		if state.Config.ExtensionHandler != nil {
 			err := state.Config.ExtensionHandler.Receive(HandshakeTypeHelloRetryRequest, &hrr.Extensions)
-- 
2.43.0


From e97e0b11cf5cc0b3c956f9d16fc811026e7292a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 09/87] fix: server rejects a CertificateVerify scheme it did
 not ask for

---
 server-state-machine.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/server-state-machine.go b/server-state-machine.go
index e392a5d..bad4ce5 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -1049,6 +1049,16 @@ func (state serverStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertDecodeError
 	}
 
+	// The client may only use a signature scheme that we asked for
+	schemeOffered := false
+	for _, scheme := range state.Config.SignatureSchemes {
+		schemeOffered = schemeOffered || (scheme == certVerify.Algorithm)
+	}
+	if !schemeOffered {
+		logf(logTypeHandshake, "[ServerStateWaitCV] Client used a signature scheme we did not ask for [%04x]", certVerify.Algorithm)
+		return nil, nil, AlertIllegalParameter
+	}
+
 	rawCerts := make([][]byte, len(state.clientCertificate.CertificateList))
 	certs := make([]*x509.Certificate, len(state.clientCertificate.CertificateList))
 	for i, certEntry := range state.clientCertificate.CertificateList {
-- 
2.43.0


From 47dca018c309a3dfb7d425eb9c69252526c2ee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 10/87] fix: certificate selection skips schemes that the key
 cannot sign with

---
 crypto.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crypto.go b/crypto.go
index ddd8f16..7e2b87b 100644
--- a/crypto.go
+++ b/crypto.go
@@ -182,12 +182,16 @@ func primeFromNamedGroup(group NamedGroup) (p *big.Int) {
 }
 
 func schemeValidForKey(alg SignatureScheme, key crypto.Signer) bool {
+	if hashMap[alg] == crypto.SHA1 {
+		return false
+	}
+
 	sigType := sigMap[alg]
-	switch key.(type) {
+	switch key := key.(type) {
 	case *rsa.PrivateKey:
 		return sigType == signatureAlgorithmRSA_PKCS1 || sigType == signatureAlgorithmRSA_PSS
 	case *ecdsa.PrivateKey:
-		return sigType == signatureAlgorithmECDSA
+		return sigType == signatureAlgorithmECDSA && curveMap[alg] == namedGroupFromECDSAKey(&key.PublicKey)
 	default:
 		return false
 	}
-- 
2.43.0


From 16a687267290fde99195ffd8f9cdad41d458cbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 11/87] fix: key update derives the next secret with the label
 of RFC 8446

---
 crypto.go        | 1 +
 state-machine.go | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/crypto.go b/crypto.go
index 7e2b87b..5c17321 100644
--- a/crypto.go
+++ b/crypto.go
@@ -547,6 +547,7 @@ const (
 	labelServerHandshakeTrafficSecret   = "s hs traffic"
 	labelClientApplicationTrafficSecret = "c ap traffic"
 	labelServerApplicationTrafficSecret = "s ap traffic"
+	labelUpdatedTrafficSecret           = "traffic upd"
 	labelExporterSecret                 = "exp master"
 	labelResumptionSecret               = "res master"
 	labelDerived                        = "derived"
diff --git a/state-machine.go b/state-machine.go
index f0635c8..db2575d 100644
--- a/state-machine.go
+++ b/state-machine.go
@@ -114,11 +114,11 @@ func (state *stateConnected) KeyUpdate(request KeyUpdateRequest) ([]HandshakeAct
 	var trafficKeys KeySet
 	if state.isClient {
 		state.clientTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.clientTrafficSecret,
-			labelClientApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+			labelUpdatedTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
 		trafficKeys = makeTrafficKeys(state.cryptoParams, state.clientTrafficSecret)
 	} else {
 		state.serverTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.serverTrafficSecret,
-			labelServerApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+			labelUpdatedTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
 		trafficKeys = makeTrafficKeys(state.cryptoParams, state.serverTrafficSecret)
 	}
 
@@ -199,11 +199,11 @@ func (state stateConnected) ProcessMessage(hm *HandshakeMessage) (HandshakeState
 		var trafficKeys KeySet
 		if !state.isClient {
 			state.clientTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.clientTrafficSecret,
-				labelClientApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+				labelUpdatedTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
 			trafficKeys = makeTrafficKeys(state.cryptoParams, state.clientTrafficSecret)
 		} else {
 			state.serverTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.serverTrafficSecret,
-				labelServerApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+				labelUpdatedTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
 			trafficKeys = makeTrafficKeys(state.cryptoParams, state.serverTrafficSecret)
 		}
 
-- 
2.43.0


From 3c4e74e55aef4e53d2768601d9f89f76e58752cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 12/87] fix: a record of unknown type after the handshake is an
 error

---
 conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conn.go b/conn.go
index ccf8dc1..fa70470 100644
--- a/conn.go
+++ b/conn.go
@@ -395,6 +395,10 @@ func (c *Conn) consumeRecord() error {
 		c.readBuffer = append(c.readBuffer, pt.fragment...)
 		logf(logTypeIO, "extended buffer: [%d] %x", len(c.readBuffer), c.readBuffer)
 
+	default:
+		logf(logTypeIO, "Unexpected record type %v", pt.contentType)
+		c.sendAlert(AlertUnexpectedMessage)
+		return AlertUnexpectedMessage
 	}
 
 	return err
-- 
2.43.0


From 6ef30142d33f0cffe6bb7b5b098cf7c1478d71a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:36 +0000
Subject: [PATCH 13/87] fix: an alert carries its level first and then its
 description

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index fa70470..43ce3b0 100644
--- a/conn.go
+++ b/conn.go
@@ -525,7 +525,7 @@ func (c *Conn) sendAlert(err Alert) error {
 		level = AlertLevelError
 	}
 
-	buf := []byte{byte(err), byte(level)}
+	buf := []byte{byte(level), byte(err)}
 	c.out.WriteRecord(&TLSPlaintext{
 		contentType: RecordTypeAlert,
 		fragment:    buf,
-- 
2.43.0


From ac249a42986abfb3d4a8c7a2a35ee28cb994b3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 14/87] fix: the message_hash pseudo-message carries its length

---
 client-state-machine.go | 1 +
 server-state-machine.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 1d2cd2d..e751677 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -422,6 +422,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		firstClientHello := &HandshakeMessage{
 			msgType: HandshakeTypeMessageHash,
 			body:    h.Sum(nil),
+			length:  uint32(params.Hash.Size()),
 		}
 
 		state.hsCtx.receivedEndOfFlight()
diff --git a/server-state-machine.go b/server-state-machine.go
index bad4ce5..0f0b281 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -187,6 +187,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		firstClientHello = &HandshakeMessage{
 			msgType: HandshakeTypeMessageHash,
 			body:    cookie.ClientHelloHash,
+			length:  uint32(len(cookie.ClientHelloHash)),
 		}
 		// have the application validate its part of the cookie
 		if state.Config.CookieHandler != nil && !state.Config.CookieHandler.Validate(state.conn, cookie.ApplicationCookie) {
-- 
2.43.0


From 533492c964d5018e323b0e67d836e09fcfae7684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 15/87] fix: server that rejected early data goes on with the
 handshake after it

---
 server-state-machine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server-state-machine.go b/server-state-machine.go
index 0f0b281..8d48510 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -756,9 +756,10 @@ func (state serverStateNegotiated) Next(_ handshakeMessageReader) (HandshakeStat
 		exporterSecret:               exporterSecret,
 	}
 	if state.Params.RejectedEarlyData {
+		waitFlight2 := nextState
 		nextState = serverStateReadPastEarlyData{
 			hsCtx: state.hsCtx,
-			next:  &nextState,
+			next:  &waitFlight2,
 		}
 	}
 	return nextState, toSend, AlertNoAlert
-- 
2.43.0


From 1d2602e73fb72c4a5a49f9b891a51b067f4a15fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 16/87] fix: a key update must be the last message of its
 record

---
 conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conn.go b/conn.go
index 43ce3b0..a6e71b9 100644
--- a/conn.go
+++ b/conn.go
@@ -346,6 +346,12 @@ func (c *Conn) consumeRecord() error {
 			}
 
 			for _, action := range actions {
+				// The keys may only change at the end of a record.
+				if _, rekey := action.(RekeyIn); rekey && start+headerLen+hmLen != len(pt.fragment) {
+					logf(logTypeHandshake, "Key change in the middle of a record")
+					c.sendAlert(AlertUnexpectedMessage)
+					return AlertUnexpectedMessage
+				}
 				alert = c.takeAction(action)
 				if alert != AlertNoAlert {
 					logf(logTypeHandshake, "Error during handshake actions: %v", alert)
-- 
2.43.0


From 10cc419b0b177dd35cfcb7ba51929019395eb4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 17/87] fix: a DTLS endpoint can send records before the
 version is negotiated

---
 record-layer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/record-layer.go b/record-layer.go
index ccb90bd..0ef4993 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -156,6 +156,7 @@ func NewRecordLayerDTLS(conn io.ReadWriter, dir Direction) *DefaultRecordLayer {
 	r.readCiphers = make(map[Epoch]*cipherState, 0)
 	r.readCiphers[0] = r.cipher
 	r.datagram = true
+	r.version = tls12Version
 	return &r
 }
 
-- 
2.43.0


From 5d94dc560755dcb888bc540be4a4902601cb0ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 18/87] fix: pre-shared key binders after a hello retry cover
 the retry

---
 client-state-machine.go | 2 ++
 server-state-machine.go | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index e751677..286d530 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -245,6 +245,8 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		}
 
 		truncHash := params.Hash.New()
+		truncHash.Write(state.firstClientHello.Marshal())
+		truncHash.Write(state.helloRetryRequest.Marshal())
 		truncHash.Write(trunc)
 
 		binder := computeFinishedData(params, binderKey, truncHash.Sum(nil))
diff --git a/server-state-machine.go b/server-state-machine.go
index 8d48510..9260a3a 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -221,7 +221,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 			contextBase = append(contextBase, firstClientHello.Marshal()...)
 			// fill in the cookie sent by the client. Needed to calculate the correct hash
 			cookieExt := &CookieExtension{Cookie: clientCookie.Cookie}
-			hrr, err := state.generateHRR(params.Suite,
+			hrr, err := state.generateHRR(initialCipherSuite.Suite,
 				ch.LegacySessionID, cookieExt)
 			if err != nil {
 				return nil, nil, AlertInternalError
-- 
2.43.0


From b4052bab6ea2592159b7c5418f6522bb852feee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:01 +0000
Subject: [PATCH 19/87] fix: a rebuilt DTLS hello retry keeps its sequence
 number

---
 server-state-machine.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server-state-machine.go b/server-state-machine.go
index 9260a3a..1b4ee1a 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -437,6 +437,8 @@ func (state *serverStateStart) generateHRR(cs CipherSuite, legacySessionId []byt
 			return nil, err
 		}
 	}
+	// The retry is the first message of a server, however often it is rebuilt.
+	state.hsCtx.hOut.msgSeq = 0
 	helloRetryRequest, err := state.hsCtx.hOut.HandshakeMessageFromBody(hrr)
 	if err != nil {
 		logf(logTypeHandshake, "[ServerStateStart] Error marshaling HRR [%v]", err)
-- 
2.43.0


From f33c7c5646eae2ca9ec096e336ac59e2262457a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 20/87] fix: an unprotected record is an error once the peer's
 records are protected

---
 record-layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/record-layer.go b/record-layer.go
index 0ef4993..b868e3c 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -431,6 +431,9 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 
 	if cipher.cipher != nil {
 		logf(logTypeIO, "%s RecordLayer.ReadRecord epoch=[%s] seq=[%x] [%d] ciphertext=[%x]", r.label, cipher.epoch.label(), seq, pt.contentType, pt.fragment)
+		if !r.datagram && pt.contentType != RecordTypeApplicationData {
+			return nil, fmt.Errorf("tls.record: Unprotected record of type %02x", header[0])
+		}
 		pt, _, err = r.decrypt(seq, header, pt)
 		if err != nil {
 			logf(logTypeIO, "%s Decryption failed", r.label)
-- 
2.43.0


From 2366465926de571c088e18530fb587c53ba418a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:15 +0000
Subject: [PATCH 21/87] fix: the server uses only the PSK modes its
 configuration allows

---
 server-state-machine.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/server-state-machine.go b/server-state-machine.go
index 1b4ee1a..4542003 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -242,8 +242,17 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		}
 	}
 
-	// Figure out if we actually should do DH / PSK
-	connParams.UsingDH, connParams.UsingPSK = PSKModeNegotiation(canDoDH, canDoPSK, clientPSKModes.KEModes)
+	// Figure out if we actually should do DH / PSK, in a mode both sides allow
+	var pskModes []PSKKeyExchangeMode
+	for _, mode := range clientPSKModes.KEModes {
+		for _, ours := range state.Config.PSKModes {
+			if mode == ours {
+				pskModes = append(pskModes, mode)
+				break
+			}
+		}
+	}
+	connParams.UsingDH, connParams.UsingPSK = PSKModeNegotiation(canDoDH, canDoPSK, pskModes)
 
 	// Select a ciphersuite
 	connParams.CipherSuite, err = CipherSuiteNegotiation(psk, ch.CipherSuites, state.Config.CipherSuites)
-- 
2.43.0


From 90dd2d2c4ddd5dbaf02b18e04f5e10f587148dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 22/87] fix: an unused pre-shared key does not determine the
 cipher suite

---
 server-state-machine.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server-state-machine.go b/server-state-machine.go
index 4542003..4b48d61 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -253,6 +253,9 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		}
 	}
 	connParams.UsingDH, connParams.UsingPSK = PSKModeNegotiation(canDoDH, canDoPSK, pskModes)
+	if !connParams.UsingPSK {
+		psk = nil
+	}
 
 	// Select a ciphersuite
 	connParams.CipherSuite, err = CipherSuiteNegotiation(psk, ch.CipherSuites, state.Config.CipherSuites)
-- 
2.43.0


From 76bb19f87c1db6978555461edf4c4f5aab6edce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:39 +0000
Subject: [PATCH 23/87] fix: unknown PSK modes are not taken as consent to a
 PSK without key exchange

---
 negotiation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/negotiation.go b/negotiation.go
index 7463953..5c5b28c 100644
--- a/negotiation.go
+++ b/negotiation.go
@@ -121,11 +121,11 @@ func PSKModeNegotiation(canDoDH, canDoPSK bool, modes []PSKKeyExchangeMode) (boo
 	dhRequired := true
 	for _, mode := range modes {
 		dhAllowed = dhAllowed || (mode == PSKModeDHEKE)
-		dhRequired = dhRequired && (mode == PSKModeDHEKE)
+		dhRequired = dhRequired && (mode != PSKModeKE)
 	}
 
 	// Use PSK if we can meet DH requirement and modes were provided
-	usingPSK := canDoPSK && (!dhRequired || canDoDH) && (len(modes) > 0)
+	usingPSK := canDoPSK && (!dhRequired || canDoDH) && (!dhRequired || dhAllowed)
 
 	// Use DH if allowed
 	usingDH := canDoDH && (dhAllowed || !usingPSK)
-- 
2.43.0


From 01169a2bf3c75a993789e51313a01de0d8db2e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:43 +0000
Subject: [PATCH 24/87] fix: the client refuses an application protocol it did
 not offer

---
 client-state-machine.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 286d530..ca34e6f 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -648,7 +648,16 @@ func (state clientStateWaitEE) Next(hr handshakeMessageReader) (HandshakeState,
 
 	state.Params.UsingEarlyData = foundExts[ExtensionTypeEarlyData]
 
-	if foundExts[ExtensionTypeALPN] && len(serverALPN.Protocols) > 0 {
+	// The server can only select one of the protocols that we offered
+	if foundExts[ExtensionTypeALPN] {
+		protoOffered := false
+		for _, proto := range state.Config.NextProtos {
+			protoOffered = protoOffered || (len(serverALPN.Protocols) == 1 && serverALPN.Protocols[0] == proto)
+		}
+		if !protoOffered {
+			logf(logTypeHandshake, "[ClientStateWaitEE] Server selected a protocol that we did not offer")
+			return nil, nil, AlertIllegalParameter
+		}
 		state.Params.NextProto = serverALPN.Protocols[0]
 	}
 
-- 
2.43.0


From 94ebcd28362a7bfb7a2872caea1e6cdedd097d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:48 +0000
Subject: [PATCH 25/87] fix: the client refuses an acceptance of early data it
 did not offer

---
 client-state-machine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index ca34e6f..9503ac1 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -647,6 +647,10 @@ func (state clientStateWaitEE) Next(hr handshakeMessageReader) (HandshakeState,
 	}
 
 	state.Params.UsingEarlyData = foundExts[ExtensionTypeEarlyData]
+	if state.Params.UsingEarlyData && !(state.Params.ClientSendingEarlyData && state.Params.UsingPSK) {
+		logf(logTypeHandshake, "[ClientStateWaitEE] Server accepted early data that we did not offer")
+		return nil, nil, AlertIllegalParameter
+	}
 
 	// The server can only select one of the protocols that we offered
 	if foundExts[ExtensionTypeALPN] {
-- 
2.43.0


From 069dd634e3b103f5df0207634b17536c90202f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:06 +0000
Subject: [PATCH 26/87] fix: early data is accepted only under the first
 pre-shared key offered

---
 server-state-machine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server-state-machine.go b/server-state-machine.go
index 4b48d61..de2651b 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -374,7 +374,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	// Figure out if we're going to do early data
 	var clientEarlyTrafficSecret []byte
 	connParams.ClientSendingEarlyData = foundExts[ExtensionTypeEarlyData]
-	connParams.UsingEarlyData, connParams.RejectedEarlyData = EarlyDataNegotiation(connParams.UsingPSK, foundExts[ExtensionTypeEarlyData], state.Config.AllowEarlyData)
+	connParams.UsingEarlyData, connParams.RejectedEarlyData = EarlyDataNegotiation(connParams.UsingPSK && selectedPSK == 0, foundExts[ExtensionTypeEarlyData], state.Config.AllowEarlyData)
 	if connParams.UsingEarlyData {
 		h := params.Hash.New()
 		h.Write(clientHello.Marshal())
-- 
2.43.0


From cd897eaa4765f81d2a9a7de3abb6c2f1b478c0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:26 +0000
Subject: [PATCH 27/87] fix: a full-size fragment can be sent and received
 protected

---
 record-layer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index b868e3c..c45a3c3 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -354,7 +354,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 
 	for err != nil {
 		if r.frame.needed() > 0 {
-			buf := make([]byte, r.frame.details.headerLen()+maxFragmentLen)
+			buf := make([]byte, r.frame.details.headerLen()+maxFragmentLen+256)
 			n, err := r.conn.Read(buf)
 			if err != nil {
 				logf(logTypeIO, "%s Error reading, %v", r.label, err)
@@ -499,7 +499,12 @@ func (r *DefaultRecordLayer) writeRecordWithPadding(pt *TLSPlaintext, cipher *ci
 		ciphertext = pt.fragment
 	}
 
-	if len(ciphertext) > maxFragmentLen {
+	// The limit is on the plaintext; only padding has to fit into it as well.
+	maxLen := maxFragmentLen
+	if cipher.cipher != nil && padLen == 0 {
+		maxLen += 1 + cipher.cipher.Overhead()
+	}
+	if len(ciphertext) > maxLen {
 		return fmt.Errorf("tls.record: Record size too big")
 	}
 
-- 
2.43.0


From 6a423deac7cc58d2b35d1305c5438f8e2ef2d8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:30 +0000
Subject: [PATCH 28/87] fix: a protected record without a content type is an
 error, not a panic

---
 record-layer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/record-layer.go b/record-layer.go
index c45a3c3..8b26f3f 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -286,7 +286,10 @@ func (r *DefaultRecordLayer) decrypt(seq uint64, header []byte, pt *TLSPlaintext
 
 	// Find the padding boundary
 	padLen := 0
-	for ; padLen < decryptLen+1 && out.fragment[decryptLen-padLen-1] == 0; padLen++ {
+	for ; padLen < decryptLen && out.fragment[decryptLen-padLen-1] == 0; padLen++ {
+	}
+	if padLen == decryptLen {
+		return nil, 0, DecryptError("tls.record.decrypt: No content type")
 	}
 
 	// Transfer the content type
-- 
2.43.0


From fc601119e72404b7b3fbd65b796f3ea8dff6e100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 29/87] fix: every key update moves to a new epoch

---
 conn.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index a6e71b9..63298d4 100644
--- a/conn.go
+++ b/conn.go
@@ -615,7 +615,11 @@ func (c *Conn) takeAction(actionGeneric HandshakeAction) Alert {
 			logf(logTypeHandshake, "%s Rekey with data still in handshake buffers", label)
 			return AlertDecodeError
 		}
-		err := c.in.Rekey(action.epoch, action.KeySet.Cipher, &action.KeySet)
+		epoch := action.epoch
+		if epoch == EpochUpdate && c.in.Epoch() >= EpochUpdate {
+			epoch = c.in.Epoch() + 1 // every update has an epoch of its own
+		}
+		err := c.in.Rekey(epoch, action.KeySet.Cipher, &action.KeySet)
 		if err != nil {
 			logf(logTypeHandshake, "%s Unable to rekey inbound: %v", label, err)
 			return AlertInternalError
@@ -623,7 +627,11 @@ func (c *Conn) takeAction(actionGeneric HandshakeAction) Alert {
 
 	case RekeyOut:
 		logf(logTypeHandshake, "%s Rekeying out to %s: %+v", label, action.epoch.label(), action.KeySet)
-		err := c.out.Rekey(action.epoch, action.KeySet.Cipher, &action.KeySet)
+		epoch := action.epoch
+		if epoch == EpochUpdate && c.out.Epoch() >= EpochUpdate {
+			epoch = c.out.Epoch() + 1 // every update has an epoch of its own
+		}
+		err := c.out.Rekey(epoch, action.KeySet.Cipher, &action.KeySet)
 		if err != nil {
 			logf(logTypeHandshake, "%s Unable to rekey outbound: %v", label, err)
 			return AlertInternalError
-- 
2.43.0


From 9bb964310877b41a3ffbae71a989fade88e35209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:04 +0000
Subject: [PATCH 30/87] fix: a datagram that is not a valid record is dropped

---
 record-layer.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/record-layer.go b/record-layer.go
index 8b26f3f..cc764f1 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -371,6 +371,11 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 			logf(logTypeIO, "%s Read %v bytes", r.label, n)
 
 			buf = buf[:n]
+			if r.datagram {
+				// A record never spans datagrams, so whatever is left of the
+				// last one was not a record.
+				r.frame = newFrameReader(r.frame.details)
+			}
 			r.frame.addChunk(buf)
 		}
 
@@ -386,6 +391,9 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 	// Validate content type
 	switch RecordType(header[0]) {
 	default:
+		if r.datagram {
+			return nil, AlertWouldBlock
+		}
 		return nil, fmt.Errorf("tls.record: Unknown content type %02x", header[0])
 	case RecordTypeAlert, RecordTypeHandshake, RecordTypeApplicationData, RecordTypeAck:
 		pt.contentType = RecordType(header[0])
@@ -400,6 +408,9 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 	size := (int(header[len(header)-2]) << 8) + int(header[len(header)-1])
 
 	if size > maxFragmentLen+256 {
+		if r.datagram {
+			return nil, AlertWouldBlock
+		}
 		return nil, fmt.Errorf("tls.record: Ciphertext size too big")
 	}
 
@@ -440,6 +451,10 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 		pt, _, err = r.decrypt(seq, header, pt)
 		if err != nil {
 			logf(logTypeIO, "%s Decryption failed", r.label)
+			if r.datagram {
+				// Anybody can send a datagram; drop it.
+				return nil, AlertWouldBlock
+			}
 			return nil, err
 		}
 	}
-- 
2.43.0


From 28d3c6141b12ba956629682ab164e78dec164d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:59 +0000
Subject: [PATCH 31/87] fix: a bad TLS record is final

---
 record-layer.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index cc764f1..4b728de 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -95,6 +95,7 @@ type DefaultRecordLayer struct {
 
 	cipher      *cipherState
 	readCiphers map[Epoch]*cipherState
+	failed      error // a bad record ends the stream (TLS)
 
 	datagram bool
 }
@@ -320,6 +321,9 @@ func (r *DefaultRecordLayer) PeekRecordType(block bool) (RecordType, error) {
 
 func (r *DefaultRecordLayer) ReadRecord() (*TLSPlaintext, error) {
 	pt, err := r.nextRecord(false)
+	if _, bad := err.(DecryptError); bad {
+		r.failed = err
+	}
 
 	// Consume the cached record if there was one
 	r.cachedRecord = nil
@@ -340,6 +344,9 @@ func (r *DefaultRecordLayer) ReadRecordAnyEpoch() (*TLSPlaintext, error) {
 
 func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, error) {
 	cipher := r.cipher
+	if r.failed != nil {
+		return nil, r.failed
+	}
 	if r.cachedRecord != nil {
 		logf(logTypeIO, "%s Returning cached record", r.label)
 		return r.cachedRecord, r.cachedError
@@ -394,7 +401,8 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 		if r.datagram {
 			return nil, AlertWouldBlock
 		}
-		return nil, fmt.Errorf("tls.record: Unknown content type %02x", header[0])
+		r.failed = fmt.Errorf("tls.record: Unknown content type %02x", header[0])
+		return nil, r.failed
 	case RecordTypeAlert, RecordTypeHandshake, RecordTypeApplicationData, RecordTypeAck:
 		pt.contentType = RecordType(header[0])
 	}
@@ -411,7 +419,8 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 		if r.datagram {
 			return nil, AlertWouldBlock
 		}
-		return nil, fmt.Errorf("tls.record: Ciphertext size too big")
+		r.failed = fmt.Errorf("tls.record: Ciphertext size too big")
+		return nil, r.failed
 	}
 
 	pt.fragment = make([]byte, size)
@@ -446,7 +455,8 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 	if cipher.cipher != nil {
 		logf(logTypeIO, "%s RecordLayer.ReadRecord epoch=[%s] seq=[%x] [%d] ciphertext=[%x]", r.label, cipher.epoch.label(), seq, pt.contentType, pt.fragment)
 		if !r.datagram && pt.contentType != RecordTypeApplicationData {
-			return nil, fmt.Errorf("tls.record: Unprotected record of type %02x", header[0])
+			r.failed = fmt.Errorf("tls.record: Unprotected record of type %02x", header[0])
+			return nil, r.failed
 		}
 		pt, _, err = r.decrypt(seq, header, pt)
 		if err != nil {
@@ -462,7 +472,8 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 
 	// Check that plaintext length is not too long
 	if len(pt.fragment) > maxFragmentLen {
-		return nil, fmt.Errorf("tls.record: Plaintext size too big")
+		r.failed = fmt.Errorf("tls.record: Plaintext size too big")
+		return nil, r.failed
 	}
 
 	logf(logTypeIO, "%s RecordLayer.ReadRecord [%d] [%x]", r.label, pt.contentType, pt.fragment)
-- 
2.43.0


From 6ad89cc25a25790479f18ce929ffdd6cb73f0e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:49 +0000
Subject: [PATCH 32/87] fix: a failed handshake stays failed and is reported to
 the peer

---
 conn.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index 63298d4..72d4ba2 100644
--- a/conn.go
+++ b/conn.go
@@ -277,7 +277,7 @@ type Conn struct {
 }
 
 func NewConn(conn net.Conn, config *Config, isClient bool) *Conn {
-	c := &Conn{conn: conn, config: config, isClient: isClient, hsCtx: &HandshakeContext{}}
+	c := &Conn{conn: conn, config: config, isClient: isClient, hsCtx: &HandshakeContext{}, handshakeAlert: AlertNoAlert}
 	if !config.UseDTLS {
 		if config.RecordLayer == nil {
 			c.in = NewRecordLayerTLS(c.conn, DirectionRead)
@@ -435,6 +435,9 @@ func (c *Conn) Read(buffer []byte) (int, error) {
 
 		// If there's no early data, then return WouldBlock
 		if len(c.hsCtx.earlyData) == 0 {
+			if c.handshakeAlert != AlertNoAlert {
+				return 0, c.handshakeAlert
+			}
 			return 0, AlertWouldBlock
 		}
 
@@ -750,8 +753,7 @@ func (c *Conn) Handshake() Alert {
 	}
 
 	// TODO Lock handshakeMutex
-	// TODO Remove CloseNotify hack
-	if c.handshakeAlert != AlertNoAlert && c.handshakeAlert != AlertCloseNotify {
+	if c.handshakeAlert != AlertNoAlert {
 		logf(logTypeHandshake, "Pre-existing handshake error: %v", c.handshakeAlert)
 		return c.handshakeAlert
 	}
@@ -790,11 +792,14 @@ func (c *Conn) Handshake() Alert {
 		}
 		if alert == AlertCloseNotify {
 			logf(logTypeHandshake, "%s Error reading message: %s", label, alert)
+			c.handshakeAlert = alert
 			c.sendAlert(AlertCloseNotify)
 			return AlertCloseNotify
 		}
 		if alert != AlertNoAlert && alert != AlertStatelessRetry {
 			logf(logTypeHandshake, "Error in state transition: %v", alert)
+			c.handshakeAlert = alert
+			c.sendAlert(alert)
 			return alert
 		}
 
@@ -802,6 +807,7 @@ func (c *Conn) Handshake() Alert {
 			logf(logTypeHandshake, "%s taking next action (%d)", label, index)
 			if alert := c.takeAction(action); alert != AlertNoAlert {
 				logf(logTypeHandshake, "Error during handshake actions: %v", alert)
+				c.handshakeAlert = alert
 				c.sendAlert(alert)
 				return alert
 			}
-- 
2.43.0


From 2299246782e78bf9546a12ec23656db03bc090b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:33 +0000
Subject: [PATCH 33/87] fix: a client hello is marshalled with its session id

---
 handshake-messages.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/handshake-messages.go b/handshake-messages.go
index e8e3aef..54e66d7 100644
--- a/handshake-messages.go
+++ b/handshake-messages.go
@@ -60,7 +60,7 @@ func (ch ClientHelloBody) Marshal() ([]byte, error) {
 		return syntax.Marshal(clientHelloBodyInnerTLS{
 			LegacyVersion:            ch.LegacyVersion,
 			Random:                   ch.Random,
-			LegacySessionID:          []byte{},
+			LegacySessionID:          ch.LegacySessionID,
 			CipherSuites:             ch.CipherSuites,
 			LegacyCompressionMethods: []byte{0},
 			Extensions:               ch.Extensions,
@@ -69,7 +69,7 @@ func (ch ClientHelloBody) Marshal() ([]byte, error) {
 		return syntax.Marshal(clientHelloBodyInnerDTLS{
 			LegacyVersion:            ch.LegacyVersion,
 			Random:                   ch.Random,
-			LegacySessionID:          []byte{},
+			LegacySessionID:          ch.LegacySessionID,
 			CipherSuites:             ch.CipherSuites,
 			LegacyCompressionMethods: []byte{0},
 			Extensions:               ch.Extensions,
-- 
2.43.0


From df6ebf7e2754a05d563ead62118c3d8b8c474039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:10 +0000
Subject: [PATCH 34/87] fix: a cookie is refused by a server that does not use
 cookies

---
 server-state-machine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server-state-machine.go b/server-state-machine.go
index de2651b..a75e498 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -172,6 +172,10 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	// The client sent a cookie. So this is probably the second ClientHello (sent as a response to a HRR)
 	var firstClientHello *HandshakeMessage
 	var initialCipherSuite CipherSuiteParams // the cipher suite that was negotiated when sending the HelloRetryRequest
+	if clientSentCookie && !state.Config.RequireCookie {
+		logf(logTypeHandshake, "[ServerStateStart] Client sent a cookie that we did not hand out")
+		return nil, nil, AlertIllegalParameter
+	}
 	if clientSentCookie {
 		plainCookie, err := state.Config.CookieProtector.DecodeToken(clientCookie.Cookie)
 		if err != nil {
-- 
2.43.0


From f2bca3d62f99680e935144eebf0df5c94dc09bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:15 +0000
Subject: [PATCH 35/87] fix: a session without ALPN can be resumed by a client
 that offers ALPN

---
 negotiation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/negotiation.go b/negotiation.go
index 5c5b28c..4e2debf 100644
--- a/negotiation.go
+++ b/negotiation.go
@@ -211,7 +211,7 @@ func ALPNNegotiation(psk *PreSharedKey, offered, supported []string) (string, er
 
 	// If the client offers ALPN on resumption, it must match the earlier one
 	var err error
-	if psk != nil && psk.IsResumption && (len(offered) > 0) {
+	if psk != nil && psk.IsResumption && psk.NextProto != "" && (len(offered) > 0) {
 		err = fmt.Errorf("ALPN for PSK not provided")
 	}
 	return "", err
-- 
2.43.0


From 72a40d4e24aade190dd7176f615bbf7e2756401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:16 +0000
Subject: [PATCH 36/87] fix: a post-handshake message may span records

---
 conn.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index 72d4ba2..de153b4 100644
--- a/conn.go
+++ b/conn.go
@@ -269,6 +269,7 @@ type Conn struct {
 	hState            HandshakeState
 	handshakeMutex    sync.Mutex
 	handshakeAlert    Alert
+	postHandshake     []byte // an incomplete message (TLS)
 	handshakeComplete bool
 
 	readBuffer []byte
@@ -311,29 +312,44 @@ func (c *Conn) consumeRecord() error {
 		return err
 	}
 
+	if len(c.postHandshake) > 0 && pt.contentType != RecordTypeHandshake {
+		logf(logTypeHandshake, "Record of type %v inside of a handshake message", pt.contentType)
+		c.sendAlert(AlertUnexpectedMessage)
+		return AlertUnexpectedMessage
+	}
+
 	switch pt.contentType {
 	case RecordTypeHandshake:
 		logf(logTypeHandshake, "Received post-handshake message")
-		// We do not support fragmentation of post-handshake handshake messages.
+		// We do not support fragmentation of post-handshake handshake messages
+		// over DTLS.
 		// TODO: Factor this more elegantly; coalesce with handshakeLayer.ReadMessage()
+		data := append(c.postHandshake, pt.fragment...)
+		c.postHandshake = nil
 		start := 0
 		headerLen := handshakeHeaderLenTLS
 		if c.config.UseDTLS {
 			headerLen = handshakeHeaderLenDTLS
 		}
-		for start < len(pt.fragment) {
-			if len(pt.fragment[start:]) < headerLen {
+		for start < len(data) {
+			if !c.config.UseDTLS && (len(data[start:]) < headerLen || len(data[start+headerLen:]) <
+				int(data[start+1])<<16+int(data[start+2])<<8+int(data[start+3])) {
+				// The rest is in the next record.
+				c.postHandshake = data[start:]
+				break
+			}
+			if len(data[start:]) < headerLen {
 				return fmt.Errorf("Post-handshake handshake message too short for header")
 			}
 
 			hm := &HandshakeMessage{}
-			hm.msgType = HandshakeType(pt.fragment[start])
-			hmLen := (int(pt.fragment[start+1]) << 16) + (int(pt.fragment[start+2]) << 8) + int(pt.fragment[start+3])
+			hm.msgType = HandshakeType(data[start])
+			hmLen := (int(data[start+1]) << 16) + (int(data[start+2]) << 8) + int(data[start+3])
 
-			if len(pt.fragment[start+headerLen:]) < hmLen {
+			if len(data[start+headerLen:]) < hmLen {
 				return fmt.Errorf("Post-handshake handshake message too short for body")
 			}
-			hm.body = pt.fragment[start+headerLen : start+headerLen+hmLen]
+			hm.body = data[start+headerLen : start+headerLen+hmLen]
 
 			// XXX: If we want to support more advanced cases, e.g., post-handshake
 			// authentication, we'll need to allow transitions other than
@@ -347,7 +363,7 @@ func (c *Conn) consumeRecord() error {
 
 			for _, action := range actions {
 				// The keys may only change at the end of a record.
-				if _, rekey := action.(RekeyIn); rekey && start+headerLen+hmLen != len(pt.fragment) {
+				if _, rekey := action.(RekeyIn); rekey && start+headerLen+hmLen != len(data) {
 					logf(logTypeHandshake, "Key change in the middle of a record")
 					c.sendAlert(AlertUnexpectedMessage)
 					return AlertUnexpectedMessage
-- 
2.43.0


From eb05c2ac312a5c42c1ee823f7879966368e7c37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:31 +0000
Subject: [PATCH 37/87] fix: would-block is not reported while a handshake
 message can be read on

---
 handshake-layer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index ae11cb8..2bb032a 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -372,7 +372,9 @@ func (h *HandshakeLayer) ReadMessage() (*HandshakeMessage, error) {
 		if err == nil {
 			break
 		}
-		if err != nil && (h.nonblocking || err != AlertWouldBlock) {
+		// An incomplete message may be continued by a record that is already
+		// there, so it is up to readRecord() to say that there is none.
+		if err != AlertWouldBlock {
 			return nil, err
 		}
 	}
-- 
2.43.0


From 67e6f4e9f02ad33b74fd6abb3ca2fbe5c8508a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:54 +0000
Subject: [PATCH 38/87] fix: a server that answers early data with a retry
 skips it

---
 handshake-layer.go      | 6 ++++++
 server-state-machine.go | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/handshake-layer.go b/handshake-layer.go
index 2bb032a..768fcdc 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -128,6 +128,7 @@ type HandshakeLayer struct {
 	sent           []*HandshakeMessage // Sent messages for DTLS
 	recvdRecords   []uint64            // Records we have received.
 	maxFragmentLen int
+	skipEarlyData  bool // Ignore 0-RTT data refused by a HelloRetryRequest
 }
 
 type handshakeLayerFrameDetails struct {
@@ -189,6 +190,11 @@ func (h *HandshakeLayer) readRecord() error {
 
 	switch pt.contentType {
 	case RecordTypeHandshake, RecordTypeAlert, RecordTypeAck:
+	case RecordTypeApplicationData:
+		if h.skipEarlyData && pt.epoch == EpochClear {
+			return nil
+		}
+		fallthrough
 	default:
 		return fmt.Errorf("tls.handshakelayer: Unexpected record type %d", pt.contentType)
 	}
diff --git a/server-state-machine.go b/server-state-machine.go
index a75e498..ccc7422 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -330,6 +330,8 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		}
 
 		if shouldSendHRR {
+			// Data protected with the early keys may still be in flight.
+			state.hsCtx.hIn.skipEarlyData = foundExts[ExtensionTypeEarlyData]
 			toSend := []HandshakeAction{
 				QueueHandshakeMessage{helloRetryRequest},
 				SendQueuedHandshake{},
@@ -397,6 +399,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	}
 
 	state.hsCtx.receivedEndOfFlight()
+	state.hsCtx.hIn.skipEarlyData = false
 
 	logf(logTypeHandshake, "[ServerStateStart] -> [ServerStateNegotiated]")
 	state.hsCtx.SetVersion(tls12Version) // Everything after this should be 1.2.
-- 
2.43.0


From a93c3c99100aa1e15b50c47767aa012f54b1e8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:54 +0000
Subject: [PATCH 39/87] fix: full-size early data can be skipped after a retry

---
 record-layer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index 4b728de..7fd677d 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -470,8 +470,9 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 	}
 	pt.epoch = cipher.epoch
 
-	// Check that plaintext length is not too long
-	if len(pt.fragment) > maxFragmentLen {
+	// Check that plaintext length is not too long (application data read
+	// without a key is somebody's ciphertext)
+	if len(pt.fragment) > maxFragmentLen && !(cipher.cipher == nil && pt.contentType == RecordTypeApplicationData) {
 		r.failed = fmt.Errorf("tls.record: Plaintext size too big")
 		return nil, r.failed
 	}
-- 
2.43.0


From f0be18004d7f442475dfcf4d5fcd3d29f54c0265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:30 +0000
Subject: [PATCH 40/87] fix: an alert record without a description does not
 crash a handshake

---
 handshake-layer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index 768fcdc..ae9854b 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -208,11 +208,10 @@ func (h *HandshakeLayer) readRecord() error {
 	}
 
 	if pt.contentType == RecordTypeAlert {
-		logf(logTypeIO, "read alert %v", pt.fragment[1])
 		if len(pt.fragment) < 2 {
-			h.sendAlert(AlertUnexpectedMessage)
 			return io.EOF
 		}
+		logf(logTypeIO, "read alert %v", pt.fragment[1])
 		return Alert(pt.fragment[1])
 	}
 
-- 
2.43.0


From 71981e508aa99938848027b25455f4cb52cce2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:07 +0000
Subject: [PATCH 41/87] fix: no early data is written or delivered after the
 handshake failed

---
 conn.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index de153b4..ce8dbad 100644
--- a/conn.go
+++ b/conn.go
@@ -449,11 +449,13 @@ func (c *Conn) Read(buffer []byte) (int, error) {
 			return 0, errors.New("Read called before the handshake completed")
 		}
 
+		// Nor those whose handshake has failed.
+		if c.handshakeAlert != AlertNoAlert {
+			return 0, c.handshakeAlert
+		}
+
 		// If there's no early data, then return WouldBlock
 		if len(c.hsCtx.earlyData) == 0 {
-			if c.handshakeAlert != AlertNoAlert {
-				return 0, c.handshakeAlert
-			}
 			return 0, AlertWouldBlock
 		}
 
@@ -953,7 +955,7 @@ func (c *Conn) Writable() bool {
 	}
 
 	// If we're a client in 0-RTT, then we're writable.
-	if c.isClient && c.out.Epoch() == EpochEarlyData {
+	if c.isClient && c.handshakeAlert == AlertNoAlert && c.out.Epoch() == EpochEarlyData {
 		return true
 	}
 
-- 
2.43.0


From 2924818085a3cad5a4d37e18518293065469c98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:42 +0000
Subject: [PATCH 42/87] fix: reading stops for good at a close_notify, fatal
 alert or protocol error

---
 conn.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index ce8dbad..46b7e14 100644
--- a/conn.go
+++ b/conn.go
@@ -270,6 +270,7 @@ type Conn struct {
 	handshakeMutex    sync.Mutex
 	handshakeAlert    Alert
 	postHandshake     []byte // an incomplete message (TLS)
+	readErr           error  // nothing more can be read
 	handshakeComplete bool
 
 	readBuffer []byte
@@ -306,12 +307,22 @@ func NewConn(conn net.Conn, config *Config, isClient bool) *Conn {
 
 // Read up
 func (c *Conn) consumeRecord() error {
+	if c.readErr != nil {
+		return c.readErr
+	}
+
 	pt, err := c.in.ReadRecord()
 	if pt == nil {
 		logf(logTypeIO, "extendBuffer returns error %v", err)
 		return err
 	}
 
+	// An alert or a violation of the protocol is the end of what can be read.
+	c.readErr = c.processRecord(pt)
+	return c.readErr
+}
+
+func (c *Conn) processRecord(pt *TLSPlaintext) error {
 	if len(c.postHandshake) > 0 && pt.contentType != RecordTypeHandshake {
 		logf(logTypeHandshake, "Record of type %v inside of a handshake message", pt.contentType)
 		c.sendAlert(AlertUnexpectedMessage)
@@ -423,7 +434,7 @@ func (c *Conn) consumeRecord() error {
 		return AlertUnexpectedMessage
 	}
 
-	return err
+	return nil
 }
 
 func readPartial(in *[]byte, buffer []byte) int {
-- 
2.43.0


From 3bc1d312a59a9664d905d10f263e738b6c2e347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:47 +0000
Subject: [PATCH 43/87] fix: a protocol error after the handshake is reported
 to both sides, not as end of stream

---
 conn.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index 46b7e14..2b08ca5 100644
--- a/conn.go
+++ b/conn.go
@@ -350,6 +350,7 @@ func (c *Conn) processRecord(pt *TLSPlaintext) error {
 				break
 			}
 			if len(data[start:]) < headerLen {
+				c.sendAlert(AlertDecodeError)
 				return fmt.Errorf("Post-handshake handshake message too short for header")
 			}
 
@@ -358,6 +359,7 @@ func (c *Conn) processRecord(pt *TLSPlaintext) error {
 			hmLen := (int(data[start+1]) << 16) + (int(data[start+2]) << 8) + int(data[start+3])
 
 			if len(data[start+headerLen:]) < hmLen {
+				c.sendAlert(AlertDecodeError)
 				return fmt.Errorf("Post-handshake handshake message too short for body")
 			}
 			hm.body = data[start+headerLen : start+headerLen+hmLen]
@@ -369,7 +371,7 @@ func (c *Conn) processRecord(pt *TLSPlaintext) error {
 			if alert != AlertNoAlert {
 				logf(logTypeHandshake, "Error in state transition: %v", alert)
 				c.sendAlert(alert)
-				return io.EOF
+				return alert
 			}
 
 			for _, action := range actions {
@@ -383,7 +385,7 @@ func (c *Conn) processRecord(pt *TLSPlaintext) error {
 				if alert != AlertNoAlert {
 					logf(logTypeHandshake, "Error during handshake actions: %v", alert)
 					c.sendAlert(alert)
-					return io.EOF
+					return alert
 				}
 			}
 
@@ -401,7 +403,7 @@ func (c *Conn) processRecord(pt *TLSPlaintext) error {
 		logf(logTypeIO, "extended buffer (for alert): [%d] %x", len(c.readBuffer), c.readBuffer)
 		if len(pt.fragment) != 2 {
 			c.sendAlert(AlertUnexpectedMessage)
-			return io.EOF
+			return AlertUnexpectedMessage
 		}
 		if Alert(pt.fragment[1]) == AlertCloseNotify {
 			return io.EOF
@@ -414,12 +416,13 @@ func (c *Conn) processRecord(pt *TLSPlaintext) error {
 			return Alert(pt.fragment[1])
 		default:
 			c.sendAlert(AlertUnexpectedMessage)
-			return io.EOF
+			return AlertUnexpectedMessage
 		}
 
 	case RecordTypeAck:
 		if !c.hsCtx.hIn.datagram {
 			logf(logTypeHandshake, "Received ACK in TLS mode")
+			c.sendAlert(AlertUnexpectedMessage)
 			return AlertUnexpectedMessage
 		}
 		return c.hsCtx.processAck(pt.fragment)
-- 
2.43.0


From d29481c20daaf76a9b7aba0f0bbb28c6d7946b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:17 +0000
Subject: [PATCH 44/87] fix: fragments of several DTLS messages are kept in
 order

---
 handshake-layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index ae9854b..a4c8c57 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -285,7 +285,7 @@ func (h *HandshakeLayer) newFragmentReceived(hm *HandshakeMessage) (*HandshakeMe
 		if hm.seq < f.seq {
 			break
 		}
-		if hm.offset < f.offset {
+		if hm.seq == f.seq && hm.offset < f.offset {
 			break
 		}
 	}
-- 
2.43.0


From fc5ae9fb8b189d2ad600dea1fa43705a1ab1a700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:22 +0000
Subject: [PATCH 45/87] fix: a delivered DTLS message leaves no fragment behind
 to block the next

---
 handshake-layer.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index a4c8c57..7ee43d9 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -252,12 +252,9 @@ func (h *HandshakeLayer) sendAlert(err Alert) error {
 
 func (h *HandshakeLayer) noteMessageDelivered(seq uint32) {
 	h.msgSeq = seq + 1
-	var i int
-	var m *HandshakeMessage
-	for i, m = range h.queued {
-		if m.seq > seq {
-			break
-		}
+	i := 0
+	for i < len(h.queued) && h.queued[i].seq <= seq {
+		i++
 	}
 	h.queued = h.queued[i:]
 }
-- 
2.43.0


From 876c0083fc2b72074c6c4fd9894f98b9df449b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:28 +0000
Subject: [PATCH 46/87] fix: a DTLS fragment reaching past the end of its
 message is refused

---
 handshake-layer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/handshake-layer.go b/handshake-layer.go
index 7ee43d9..e49702c 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -264,6 +264,10 @@ func (h *HandshakeLayer) newFragmentReceived(hm *HandshakeMessage) (*HandshakeMe
 		return nil, nil
 	}
 
+	if hm.offset+uint32(len(hm.body)) > hm.length {
+		return nil, fmt.Errorf("DTLS fragment exceeds its message")
+	}
+
 	// TODO(ekr@rtfm.com): Send an ACK immediately if we got something
 	// out of order.
 	h.ctx.receivedHandshakeMessage()
-- 
2.43.0


From c7222851cb1f128ba44e67c4c2001243c4e872df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:31 +0000
Subject: [PATCH 47/87] fix: fragmented and reordered DTLS messages after the
 handshake are reassembled

---
 conn.go            | 138 +++++++++++++++++++++++++++++----------------
 handshake-layer.go |  16 ++++--
 2 files changed, 101 insertions(+), 53 deletions(-)

diff --git a/conn.go b/conn.go
index 2b08ca5..2bcf588 100644
--- a/conn.go
+++ b/conn.go
@@ -332,72 +332,32 @@ func (c *Conn) processRecord(pt *TLSPlaintext) error {
 	switch pt.contentType {
 	case RecordTypeHandshake:
 		logf(logTypeHandshake, "Received post-handshake message")
-		// We do not support fragmentation of post-handshake handshake messages
-		// over DTLS.
 		// TODO: Factor this more elegantly; coalesce with handshakeLayer.ReadMessage()
+		if c.config.UseDTLS {
+			return c.processFragments(pt.fragment)
+		}
+
 		data := append(c.postHandshake, pt.fragment...)
 		c.postHandshake = nil
 		start := 0
 		headerLen := handshakeHeaderLenTLS
-		if c.config.UseDTLS {
-			headerLen = handshakeHeaderLenDTLS
-		}
 		for start < len(data) {
-			if !c.config.UseDTLS && (len(data[start:]) < headerLen || len(data[start+headerLen:]) <
-				int(data[start+1])<<16+int(data[start+2])<<8+int(data[start+3])) {
+			if len(data[start:]) < headerLen || len(data[start+headerLen:]) <
+				int(data[start+1])<<16+int(data[start+2])<<8+int(data[start+3]) {
 				// The rest is in the next record.
 				c.postHandshake = data[start:]
 				break
 			}
-			if len(data[start:]) < headerLen {
-				c.sendAlert(AlertDecodeError)
-				return fmt.Errorf("Post-handshake handshake message too short for header")
-			}
 
 			hm := &HandshakeMessage{}
 			hm.msgType = HandshakeType(data[start])
 			hmLen := (int(data[start+1]) << 16) + (int(data[start+2]) << 8) + int(data[start+3])
-
-			if len(data[start+headerLen:]) < hmLen {
-				c.sendAlert(AlertDecodeError)
-				return fmt.Errorf("Post-handshake handshake message too short for body")
-			}
 			hm.body = data[start+headerLen : start+headerLen+hmLen]
+			start += headerLen + hmLen
 
-			// XXX: If we want to support more advanced cases, e.g., post-handshake
-			// authentication, we'll need to allow transitions other than
-			// Connected -> Connected
-			state, actions, alert := c.state.ProcessMessage(hm)
-			if alert != AlertNoAlert {
-				logf(logTypeHandshake, "Error in state transition: %v", alert)
-				c.sendAlert(alert)
-				return alert
-			}
-
-			for _, action := range actions {
-				// The keys may only change at the end of a record.
-				if _, rekey := action.(RekeyIn); rekey && start+headerLen+hmLen != len(data) {
-					logf(logTypeHandshake, "Key change in the middle of a record")
-					c.sendAlert(AlertUnexpectedMessage)
-					return AlertUnexpectedMessage
-				}
-				alert = c.takeAction(action)
-				if alert != AlertNoAlert {
-					logf(logTypeHandshake, "Error during handshake actions: %v", alert)
-					c.sendAlert(alert)
-					return alert
-				}
-			}
-
-			var connected bool
-			c.state, connected = state.(stateConnected)
-			if !connected {
-				logf(logTypeHandshake, "Disconnected after state transition: %v", alert)
-				c.sendAlert(alert)
-				return io.EOF
+			if err := c.processPostHandshake(hm, start == len(data)); err != nil {
+				return err
 			}
-
-			start += headerLen + hmLen
 		}
 	case RecordTypeAlert:
 		logf(logTypeIO, "extended buffer (for alert): [%d] %x", len(c.readBuffer), c.readBuffer)
@@ -440,6 +400,86 @@ func (c *Conn) processRecord(pt *TLSPlaintext) error {
 	return nil
 }
 
+// processFragments handles the post-handshake message fragments of a DTLS record.
+func (c *Conn) processFragments(data []byte) error {
+	for len(data) > 0 {
+		if len(data) < handshakeHeaderLenDTLS {
+			c.sendAlert(AlertDecodeError)
+			return fmt.Errorf("Post-handshake handshake message too short for header")
+		}
+
+		hm := &HandshakeMessage{}
+		hm.msgType = HandshakeType(data[0])
+		hm.datagram = true
+		v, rest := decodeUint(data[1:], 3)
+		hm.length = uint32(v)
+		v, rest = decodeUint(rest, 2)
+		hm.seq = uint32(v)
+		v, rest = decodeUint(rest, 3)
+		hm.offset = uint32(v)
+		fragLen, rest := decodeUint(rest, 3)
+
+		if uint64(len(rest)) < fragLen {
+			c.sendAlert(AlertDecodeError)
+			return fmt.Errorf("Post-handshake handshake message too short for body")
+		}
+		hm.body = append([]byte{}, rest[:fragLen]...)
+		data = rest[fragLen:]
+
+		hm, err := c.hsCtx.hIn.reassemble(hm)
+		for err == nil && hm != nil {
+			if err := c.processPostHandshake(hm, len(data) == 0); err != nil {
+				return err
+			}
+			hm, err = c.hsCtx.hIn.checkMessageAvailable()
+		}
+		if err != nil {
+			c.sendAlert(AlertDecodeError)
+			return err
+		}
+	}
+	return nil
+}
+
+// processPostHandshake handles a message received after the handshake.  |last|
+// tells if it ends the record that completed it.
+func (c *Conn) processPostHandshake(hm *HandshakeMessage, last bool) error {
+	// XXX: If we want to support more advanced cases, e.g., post-handshake
+	// authentication, we'll need to allow transitions other than
+	// Connected -> Connected
+	state, actions, alert := c.state.ProcessMessage(hm)
+	if alert != AlertNoAlert {
+		logf(logTypeHandshake, "Error in state transition: %v", alert)
+		c.sendAlert(alert)
+		return alert
+	}
+
+	for _, action := range actions {
+		// The keys may only change at the end of a record.
+		if _, rekey := action.(RekeyIn); rekey && !last {
+			logf(logTypeHandshake, "Key change in the middle of a record")
+			c.sendAlert(AlertUnexpectedMessage)
+			return AlertUnexpectedMessage
+		}
+		alert = c.takeAction(action)
+		if alert != AlertNoAlert {
+			logf(logTypeHandshake, "Error during handshake actions: %v", alert)
+			c.sendAlert(alert)
+			return alert
+		}
+	}
+
+	var connected bool
+	c.state, connected = state.(stateConnected)
+	if !connected {
+		logf(logTypeHandshake, "Disconnected after state transition: %v", alert)
+		c.sendAlert(alert)
+		return io.EOF
+	}
+
+	return nil
+}
+
 func readPartial(in *[]byte, buffer []byte) int {
 	logf(logTypeIO, "conn.Read input buffer now has len %d", len((*in)))
 	read := copy(buffer, *in)
diff --git a/handshake-layer.go b/handshake-layer.go
index e49702c..6c5ed7c 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -264,14 +264,22 @@ func (h *HandshakeLayer) newFragmentReceived(hm *HandshakeMessage) (*HandshakeMe
 		return nil, nil
 	}
 
-	if hm.offset+uint32(len(hm.body)) > hm.length {
-		return nil, fmt.Errorf("DTLS fragment exceeds its message")
-	}
-
 	// TODO(ekr@rtfm.com): Send an ACK immediately if we got something
 	// out of order.
 	h.ctx.receivedHandshakeMessage()
 
+	return h.reassemble(hm)
+}
+
+func (h *HandshakeLayer) reassemble(hm *HandshakeMessage) (*HandshakeMessage, error) {
+	if hm.seq < h.msgSeq {
+		return nil, nil
+	}
+
+	if hm.offset+uint32(len(hm.body)) > hm.length {
+		return nil, fmt.Errorf("DTLS fragment exceeds its message")
+	}
+
 	if hm.seq == h.msgSeq && hm.offset == 0 && hm.length == uint32(len(hm.body)) {
 		// TODO(ekr@rtfm.com): Check the length?
 		// This is complete.
-- 
2.43.0


From 8a3a2e0a5b993956616e48653f585db7ab6c5b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:46 +0000
Subject: [PATCH 48/87] fix: a bad record ends reading after the handshake and
 is answered with an alert

---
 conn.go         |  4 ++++
 record-layer.go | 30 ++++++++++++++++++++++++++----
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index 2bcf588..def7752 100644
--- a/conn.go
+++ b/conn.go
@@ -314,6 +314,10 @@ func (c *Conn) consumeRecord() error {
 	pt, err := c.in.ReadRecord()
 	if pt == nil {
 		logf(logTypeIO, "extendBuffer returns error %v", err)
+		if alert, bad := recordAlert(err); bad {
+			c.readErr = err
+			c.sendAlert(alert)
+		}
 		return err
 	}
 
diff --git a/record-layer.go b/record-layer.go
index 7fd677d..7c56a2b 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -22,6 +22,28 @@ func (err DecryptError) Error() string {
 	return string(err)
 }
 
+// recordError is a violation of the record protocol that calls for an alert.
+type recordError struct {
+	alert Alert
+	msg   string
+}
+
+func (err recordError) Error() string {
+	return err.msg
+}
+
+// recordAlert returns the alert to send for an error of the record layer, if
+// it is one that the peer is to be told about.
+func recordAlert(err error) (Alert, bool) {
+	switch e := err.(type) {
+	case DecryptError:
+		return AlertBadRecordMAC, true
+	case recordError:
+		return e.alert, true
+	}
+	return AlertNoAlert, false
+}
+
 type Direction uint8
 
 const (
@@ -401,7 +423,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 		if r.datagram {
 			return nil, AlertWouldBlock
 		}
-		r.failed = fmt.Errorf("tls.record: Unknown content type %02x", header[0])
+		r.failed = recordError{AlertUnexpectedMessage, fmt.Sprintf("tls.record: Unknown content type %02x", header[0])}
 		return nil, r.failed
 	case RecordTypeAlert, RecordTypeHandshake, RecordTypeApplicationData, RecordTypeAck:
 		pt.contentType = RecordType(header[0])
@@ -419,7 +441,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 		if r.datagram {
 			return nil, AlertWouldBlock
 		}
-		r.failed = fmt.Errorf("tls.record: Ciphertext size too big")
+		r.failed = recordError{AlertRecordOverflow, "tls.record: Ciphertext size too big"}
 		return nil, r.failed
 	}
 
@@ -455,7 +477,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 	if cipher.cipher != nil {
 		logf(logTypeIO, "%s RecordLayer.ReadRecord epoch=[%s] seq=[%x] [%d] ciphertext=[%x]", r.label, cipher.epoch.label(), seq, pt.contentType, pt.fragment)
 		if !r.datagram && pt.contentType != RecordTypeApplicationData {
-			r.failed = fmt.Errorf("tls.record: Unprotected record of type %02x", header[0])
+			r.failed = recordError{AlertUnexpectedMessage, fmt.Sprintf("tls.record: Unprotected record of type %02x", header[0])}
 			return nil, r.failed
 		}
 		pt, _, err = r.decrypt(seq, header, pt)
@@ -473,7 +495,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 	// Check that plaintext length is not too long (application data read
 	// without a key is somebody's ciphertext)
 	if len(pt.fragment) > maxFragmentLen && !(cipher.cipher == nil && pt.contentType == RecordTypeApplicationData) {
-		r.failed = fmt.Errorf("tls.record: Plaintext size too big")
+		r.failed = recordError{AlertRecordOverflow, "tls.record: Plaintext size too big"}
 		return nil, r.failed
 	}
 
-- 
2.43.0


From efe4e89f14a7aeff46e76bc52354d25ec23ff04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:52 +0000
Subject: [PATCH 49/87] fix: alert descriptions that mint uses internally are
 not taken for them when received

---
 alert.go | 11 +++++++++++
 conn.go  |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/alert.go b/alert.go
index 430e455..fa67d26 100644
--- a/alert.go
+++ b/alert.go
@@ -99,3 +99,14 @@ func (e Alert) String() string {
 func (e Alert) Error() string {
 	return e.String()
 }
+
+// receivedAlert returns the alert that the peer sent.  The values that mint
+// uses internally are not alerts.
+func receivedAlert(description byte) Alert {
+	switch alert := Alert(description); alert {
+	case AlertStatelessRetry, AlertWouldBlock, AlertNoAlert:
+		return AlertUnexpectedMessage
+	default:
+		return alert
+	}
+}
diff --git a/conn.go b/conn.go
index def7752..cfdfb87 100644
--- a/conn.go
+++ b/conn.go
@@ -377,7 +377,7 @@ func (c *Conn) processRecord(pt *TLSPlaintext) error {
 		case AlertLevelWarning:
 			// drop on the floor
 		case AlertLevelError:
-			return Alert(pt.fragment[1])
+			return receivedAlert(pt.fragment[1])
 		default:
 			c.sendAlert(AlertUnexpectedMessage)
 			return AlertUnexpectedMessage
-- 
2.43.0


From c08792f81388f913a781344beb1b7da0eaef6e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:15 +0000
Subject: [PATCH 50/87] fix: alerts received and record errors in a handshake
 are reported as what they are

---
 conn.go            | 13 +++++++++++++
 handshake-layer.go | 16 +++++++++++-----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index cfdfb87..c0cdca8 100644
--- a/conn.go
+++ b/conn.go
@@ -807,6 +807,14 @@ func (r *handshakeMessageReaderImpl) ReadMessage() (*HandshakeMessage, Alert) {
 		if err == AlertWouldBlock {
 			return nil, AlertWouldBlock
 		}
+		if alert, bad := recordAlert(err); bad {
+			logf(logTypeHandshake, "Error reading record: %v", err)
+			return nil, alert
+		}
+		if alert, ok := err.(Alert); ok {
+			logf(logTypeHandshake, "Error reading message: %v", err)
+			return nil, alert
+		}
 		if err != nil {
 			logf(logTypeHandshake, "Error reading message: %v", err)
 			return nil, AlertCloseNotify
@@ -875,6 +883,11 @@ func (c *Conn) Handshake() Alert {
 		if alert != AlertNoAlert && alert != AlertStatelessRetry {
 			logf(logTypeHandshake, "Error in state transition: %v", alert)
 			c.handshakeAlert = alert
+			if c.hsCtx.hIn.peerAlert {
+				// The peer knows.
+				c.Close()
+				return alert
+			}
 			c.sendAlert(alert)
 			return alert
 		}
diff --git a/handshake-layer.go b/handshake-layer.go
index 6c5ed7c..34f7337 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -2,7 +2,6 @@ package mint
 
 import (
 	"fmt"
-	"io"
 	"net"
 )
 
@@ -128,6 +127,7 @@ type HandshakeLayer struct {
 	sent           []*HandshakeMessage // Sent messages for DTLS
 	recvdRecords   []uint64            // Records we have received.
 	maxFragmentLen int
+	peerAlert      bool // An alert has been received
 	skipEarlyData  bool // Ignore 0-RTT data refused by a HelloRetryRequest
 }
 
@@ -196,23 +196,29 @@ func (h *HandshakeLayer) readRecord() error {
 		}
 		fallthrough
 	default:
+		if !h.datagram {
+			logf(logTypeIO, "Unexpected record type %d", pt.contentType)
+			return AlertUnexpectedMessage
+		}
 		return fmt.Errorf("tls.handshakelayer: Unexpected record type %d", pt.contentType)
 	}
 
 	if pt.contentType == RecordTypeAck {
 		if !h.datagram {
-			return fmt.Errorf("tls.handshakelayer: can't have ACK with TLS")
+			logf(logTypeIO, "can't have ACK with TLS")
+			return AlertUnexpectedMessage
 		}
 		logf(logTypeIO, "read ACK")
 		return h.ctx.processAck(pt.fragment)
 	}
 
 	if pt.contentType == RecordTypeAlert {
-		if len(pt.fragment) < 2 {
-			return io.EOF
+		if len(pt.fragment) != 2 {
+			return AlertUnexpectedMessage
 		}
 		logf(logTypeIO, "read alert %v", pt.fragment[1])
-		return Alert(pt.fragment[1])
+		h.peerAlert = true
+		return receivedAlert(pt.fragment[1])
 	}
 
 	assert(h.ctx.hIn.conn != nil)
-- 
2.43.0


From 69a1bf1f27848403c0ea5dc9863f6ee6921f7951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:44 +0000
Subject: [PATCH 51/87] fix: bytes that the transport returns along with an
 error are not lost

---
 record-layer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/record-layer.go b/record-layer.go
index 7c56a2b..41dc0ea 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -388,6 +388,10 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 		if r.frame.needed() > 0 {
 			buf := make([]byte, r.frame.details.headerLen()+maxFragmentLen+256)
 			n, err := r.conn.Read(buf)
+			if n > 0 {
+				// What was read counts; the error comes up again.
+				err = nil
+			}
 			if err != nil {
 				logf(logTypeIO, "%s Error reading, %v", r.label, err)
 				return nil, err
-- 
2.43.0


From 820fbf196b294d7dc52f6964b2db8356e019552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:49 +0000
Subject: [PATCH 52/87] fix: a stream that ends inside of a record has not
 ended cleanly

---
 frame-reader.go | 5 +++++
 record-layer.go | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/frame-reader.go b/frame-reader.go
index 4ccfc23..f5b62ba 100644
--- a/frame-reader.go
+++ b/frame-reader.go
@@ -52,6 +52,11 @@ func (f *frameReader) needed() int {
 	return tmp
 }
 
+// partial tells if some of a frame has been read, but not all of it.
+func (f *frameReader) partial() bool {
+	return f.state == kFrameReaderBody || f.writeOffset > 0 || len(f.remainder) > 0
+}
+
 func (f *frameReader) addChunk(in []byte) {
 	// Append to the buffer.
 	logf(logTypeFrameReader, "Appending %v", len(in))
diff --git a/record-layer.go b/record-layer.go
index 41dc0ea..d6d236e 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -394,6 +394,9 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 			}
 			if err != nil {
 				logf(logTypeIO, "%s Error reading, %v", r.label, err)
+				if err == io.EOF && !r.datagram && r.frame.partial() {
+					err = io.ErrUnexpectedEOF
+				}
 				return nil, err
 			}
 
-- 
2.43.0


From 9f80536393de2bb573d7356ee7c2b139f9dd15a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:04 +0000
Subject: [PATCH 53/87] fix: a KeyUpdate with an unknown request value is
 refused

---
 state-machine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/state-machine.go b/state-machine.go
index db2575d..fd2e469 100644
--- a/state-machine.go
+++ b/state-machine.go
@@ -196,6 +196,11 @@ func (state stateConnected) ProcessMessage(hm *HandshakeMessage) (HandshakeState
 
 	switch body := bodyGeneric.(type) {
 	case *KeyUpdateBody:
+		if body.KeyUpdateRequest != KeyUpdateNotRequested && body.KeyUpdateRequest != KeyUpdateRequested {
+			logf(logTypeHandshake, "Received key update with unknown request %v", body.KeyUpdateRequest)
+			return nil, nil, AlertIllegalParameter
+		}
+
 		var trafficKeys KeySet
 		if !state.isClient {
 			state.clientTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.clientTrafficSecret,
-- 
2.43.0


From 65092597cfd309e2664c61556e6a134d359b0d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 54/87] fix: exported secrets are bound to the hash of the
 context

---
 conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index c0cdca8..ce8e102 100644
--- a/conn.go
+++ b/conn.go
@@ -998,7 +998,9 @@ func (c *Conn) ComputeExporter(label string, context []byte, keyLength int) ([]b
 	h0 := c.state.cryptoParams.Hash.New().Sum(nil)
 	tmpSecret := deriveSecret(c.state.cryptoParams, c.state.exporterSecret, label, h0)
 
-	hc := c.state.cryptoParams.Hash.New().Sum(context)
+	h := c.state.cryptoParams.Hash.New()
+	h.Write(context)
+	hc := h.Sum(nil)
 	return HkdfExpandLabel(c.state.cryptoParams.Hash, tmpSecret, "exporter", hc, keyLength), nil
 }
 
-- 
2.43.0


From b469940c5dd27d8d5ac09a60b8c27212f373cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 55/87] fix: an exporter label or length that HKDF cannot serve
 is refused

---
 conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conn.go b/conn.go
index ce8e102..4c60919 100644
--- a/conn.go
+++ b/conn.go
@@ -995,6 +995,11 @@ func (c *Conn) ComputeExporter(label string, context []byte, keyLength int) ([]b
 		return nil, fmt.Errorf("Internal error: no exporter secret")
 	}
 
+	// HKDF cannot produce more, nor encode a longer label.
+	if keyLength < 0 || keyLength > 255*c.state.cryptoParams.Hash.Size() || len("tls13 ")+len(label) > 255 {
+		return nil, fmt.Errorf("Exporter label or key length out of range")
+	}
+
 	h0 := c.state.cryptoParams.Hash.New().Sum(nil)
 	tmpSecret := deriveSecret(c.state.cryptoParams, c.state.exporterSecret, label, h0)
 
-- 
2.43.0


From 3d2efde967f770d54cc2bd22f9c884192e86836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 56/87] fix: an expired timer no longer removes the ones behind
 it

---
 timer.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/timer.go b/timer.go
index 0b7f7af..7cf7e1a 100644
--- a/timer.go
+++ b/timer.go
@@ -56,20 +56,17 @@ func (ts *timerSet) start(label string, cb timerCb, delayMs uint32) *timer {
 // We should be able to do just one list manipulation, as long
 // as we're careful about how we handle inserts during callbacks.
 func (ts *timerSet) check(now time.Time) error {
-	for i, t := range ts.ts {
-		if now.After(t.deadline) {
-			ts.ts = append(ts.ts[:i], ts.ts[:i+1]...)
-			if t.cb != nil {
-				logf(logTypeHandshake, "Timer %s expired [%v > %v]", t.label, now, t.deadline)
-				cb := t.cb
-				t.cb = nil
-				err := cb()
-				if err != nil {
-					return err
-				}
+	for len(ts.ts) > 0 && now.After(ts.ts[0].deadline) {
+		t := ts.ts[0]
+		ts.ts = ts.ts[1:]
+		if t.cb != nil {
+			logf(logTypeHandshake, "Timer %s expired [%v > %v]", t.label, now, t.deadline)
+			cb := t.cb
+			t.cb = nil
+			err := cb()
+			if err != nil {
+				return err
 			}
-		} else {
-			break
 		}
 	}
 	return nil
-- 
2.43.0


From bfae3cc83b857830eb04607c0258fd0df806d334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 57/87] fix: DTLS fragments are remembered by the record
 numbers they are sent with

---
 handshake-layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index 34f7337..21e050f 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -496,7 +496,7 @@ func (h *HandshakeLayer) writeFragment(hm *HandshakeMessage, start int, room int
 			hm.seq,
 			start,
 			len(body),
-			h.conn.(*DefaultRecordLayer).cipher.combineSeq(true),
+			hm.cipher.combineSeq(true),
 			false,
 		})
 		err = h.conn.(*DefaultRecordLayer).writeRecordWithPadding(
-- 
2.43.0


From 09ea5d9f5e514ea0de5968f13c585a8f61ef63fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 58/87] fix: DTLS records of an earlier epoch are read with its
 keys and number

---
 record-layer.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index d6d236e..03c9b2c 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -286,22 +286,22 @@ func (r *DefaultRecordLayer) encrypt(cipher *cipherState, seq uint64, header []b
 	return ciphertext
 }
 
-func (r *DefaultRecordLayer) decrypt(seq uint64, header []byte, pt *TLSPlaintext) (*TLSPlaintext, int, error) {
+func (r *DefaultRecordLayer) decrypt(cipher *cipherState, seq uint64, header []byte, pt *TLSPlaintext) (*TLSPlaintext, int, error) {
 	assert(r.direction == DirectionRead)
 	logf(logTypeIO, "%s Decrypt seq=[%x]", r.label, seq)
-	if len(pt.fragment) < r.cipher.overhead() {
-		msg := fmt.Sprintf("tls.record.decrypt: Record too short [%d] < [%d]", len(pt.fragment), r.cipher.overhead())
+	if len(pt.fragment) < cipher.overhead() {
+		msg := fmt.Sprintf("tls.record.decrypt: Record too short [%d] < [%d]", len(pt.fragment), cipher.overhead())
 		return nil, 0, DecryptError(msg)
 	}
 
-	decryptLen := len(pt.fragment) - r.cipher.overhead()
+	decryptLen := len(pt.fragment) - cipher.overhead()
 	out := &TLSPlaintext{
 		contentType: pt.contentType,
 		fragment:    make([]byte, decryptLen),
 	}
 
 	// Decrypt
-	_, err := r.cipher.cipher.Open(out.fragment[:0], r.cipher.computeNonce(seq), pt.fragment, header)
+	_, err := cipher.cipher.Open(out.fragment[:0], cipher.computeNonce(seq), pt.fragment, header)
 	if err != nil {
 		logf(logTypeIO, "%s AEAD decryption failure [%x]", r.label, pt)
 		return nil, 0, DecryptError("tls.record.decrypt: AEAD decrypt failed")
@@ -479,6 +479,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 			}
 			cipher = c
 		}
+		pt.seq = seq
 	}
 
 	if cipher.cipher != nil {
@@ -487,7 +488,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 			r.failed = recordError{AlertUnexpectedMessage, fmt.Sprintf("tls.record: Unprotected record of type %02x", header[0])}
 			return nil, r.failed
 		}
-		pt, _, err = r.decrypt(seq, header, pt)
+		pt, _, err = r.decrypt(cipher, seq, header, pt)
 		if err != nil {
 			logf(logTypeIO, "%s Decryption failed", r.label)
 			if r.datagram {
-- 
2.43.0


From af146abcdf4779b61dea563cdfbe280abca1490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 59/87] fix: DTLS messages after the handshake, and
 retransmitted ones, are acknowledged

---
 conn.go | 30 ++++++++++++++++++++++++++++--
 dtls.go |  6 ++++++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 4c60919..f3f57bc 100644
--- a/conn.go
+++ b/conn.go
@@ -311,7 +311,13 @@ func (c *Conn) consumeRecord() error {
 		return c.readErr
 	}
 
-	pt, err := c.in.ReadRecord()
+	var pt *TLSPlaintext
+	var err error
+	if dtls, ok := c.in.(*DefaultRecordLayer); ok && c.config.UseDTLS {
+		pt, err = dtls.ReadRecordAnyEpoch()
+	} else {
+		pt, err = c.in.ReadRecord()
+	}
 	if pt == nil {
 		logf(logTypeIO, "extendBuffer returns error %v", err)
 		if alert, bad := recordAlert(err); bad {
@@ -321,11 +327,28 @@ func (c *Conn) consumeRecord() error {
 		return err
 	}
 
+	if c.config.UseDTLS && pt.epoch != c.in.Epoch() {
+		return c.receivedOldRecord(pt)
+	}
+
 	// An alert or a violation of the protocol is the end of what can be read.
 	c.readErr = c.processRecord(pt)
 	return c.readErr
 }
 
+// receivedOldRecord handles a DTLS record of an epoch that is over.  A handshake
+// message in it has been processed, so the peer has missed the ACK for it.  (That
+// of the server's flight is the client's.)
+func (c *Conn) receivedOldRecord(pt *TLSPlaintext) error {
+	answered := pt.epoch == EpochClear || (c.isClient && pt.epoch == EpochHandshakeData)
+	if pt.contentType == RecordTypeHandshake && !answered {
+		if err := c.hsCtx.ackRecord(pt.seq); err != nil {
+			return err
+		}
+	}
+	return AlertWouldBlock
+}
+
 func (c *Conn) processRecord(pt *TLSPlaintext) error {
 	if len(c.postHandshake) > 0 && pt.contentType != RecordTypeHandshake {
 		logf(logTypeHandshake, "Record of type %v inside of a handshake message", pt.contentType)
@@ -338,7 +361,10 @@ func (c *Conn) processRecord(pt *TLSPlaintext) error {
 		logf(logTypeHandshake, "Received post-handshake message")
 		// TODO: Factor this more elegantly; coalesce with handshakeLayer.ReadMessage()
 		if c.config.UseDTLS {
-			return c.processFragments(pt.fragment)
+			if err := c.processFragments(pt.fragment); err != nil {
+				return err
+			}
+			return c.hsCtx.ackRecord(pt.seq)
 		}
 
 		data := append(c.postHandshake, pt.fragment...)
diff --git a/dtls.go b/dtls.go
index aa914e3..102f79e 100644
--- a/dtls.go
+++ b/dtls.go
@@ -84,6 +84,12 @@ func (h *HandshakeContext) sendAck() error {
 	return nil
 }
 
+// ackRecord acknowledges a record received after the handshake.
+func (h *HandshakeContext) ackRecord(record uint64) error {
+	h.hIn.recvdRecords = []uint64{record}
+	return h.sendAck()
+}
+
 func (h *HandshakeContext) processAck(data []byte) error {
 	// Cancel the retransmit timer because we will be resending
 	// and possibly re-arming later.
-- 
2.43.0


From 39aae0d493d943ee2a7141c81bdb638d6eda9fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 60/87] fix: a DTLS client does not reuse record numbers after
 a retry

---
 record-layer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/record-layer.go b/record-layer.go
index 03c9b2c..b4724f6 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -188,6 +188,10 @@ func (r *DefaultRecordLayer) SetVersion(v uint16) {
 }
 
 func (r *DefaultRecordLayer) ResetClear(seq uint64) {
+	if r.datagram && r.cipher.epoch == EpochClear && r.cipher.seq > seq {
+		// Retransmissions have used these numbers.
+		seq = r.cipher.seq
+	}
 	r.cipher = newCipherStateNull()
 	r.cipher.seq = seq
 }
-- 
2.43.0


From 7605a4eb7fd1313dfb26bd7642b3b17eedc27934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 61/87] fix: a handshake that failed to start stays failed

---
 conn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conn.go b/conn.go
index f3f57bc..e465fd4 100644
--- a/conn.go
+++ b/conn.go
@@ -874,6 +874,7 @@ func (c *Conn) Handshake() Alert {
 	if c.hState == nil {
 		logf(logTypeHandshake, "%s First time through handshake (or after stateless retry), setting up", label)
 		alert := c.HandshakeSetup()
+		c.handshakeAlert = alert // a failure is final
 		if alert != AlertNoAlert || (c.isClient && c.config.NonBlocking) {
 			return alert
 		}
-- 
2.43.0


From 541df8ce95dd96bd458331bc640ec63cacfb0c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 62/87] fix: a client takes extensions for its external handler
 in a retry request

---
 client-state-machine.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 9503ac1..c66778f 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -411,7 +411,20 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 			logf(logTypeHandshake, "[ClientStateWaitSH] Invalid server cookie extension [%v]", err)
 			return nil, nil, AlertDecodeError
 		}
-		if !foundCookie || len(hrr.Extensions) != 2 {
+		extra := 0
+		for _, ext := range hrr.Extensions {
+			switch ext.ExtensionType {
+			case ExtensionTypeServerName, ExtensionTypeSupportedGroups, ExtensionTypeSignatureAlgorithms,
+				ExtensionTypeALPN, ExtensionTypeKeyShare, ExtensionTypePreSharedKey, ExtensionTypeEarlyData,
+				ExtensionTypeSupportedVersions, ExtensionTypeCookie, ExtensionTypePSKKeyExchangeModes:
+			default:
+				if state.Config.ExtensionHandler != nil {
+					// The external handler has seen it.
+					extra++
+				}
+			}
+		}
+		if !foundCookie || len(hrr.Extensions) != 2+extra {
 			logf(logTypeHandshake, "[ClientStateWaitSH] No Cookie or extra extensions [%v] [%d]", foundCookie, len(hrr.Extensions))
 			return nil, nil, AlertIllegalParameter
 		}
-- 
2.43.0


From 12f0bbe82283421117596eb6e4fbee44efdde472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 63/87] fix: a DTLS server reports a failure to send its final
 ACK

---
 dtls.go                 | 6 +++---
 server-state-machine.go | 5 ++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/dtls.go b/dtls.go
index 102f79e..a198e01 100644
--- a/dtls.go
+++ b/dtls.go
@@ -186,17 +186,17 @@ func (h *HandshakeContext) receivedEndOfFlight() {
 	h.timers.cancel(ackTimerLabel)
 }
 
-func (h *HandshakeContext) receivedFinalFlight() {
+func (h *HandshakeContext) receivedFinalFlight() error {
 	logf(logTypeHandshake, "%p Received final flight", h)
 	if !h.hIn.datagram {
-		return
+		return nil
 	}
 
 	// Disarm the ACK timer
 	h.timers.cancel(ackTimerLabel)
 
 	// But send an ACK immediately.
-	h.sendAck()
+	return h.sendAck()
 }
 
 func (h *HandshakeContext) fragmentAcked(seq uint32, offset int, fraglen int) bool {
diff --git a/server-state-machine.go b/server-state-machine.go
index ccc7422..23a2319 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -1188,7 +1188,10 @@ func (state serverStateWaitFinished) Next(hr handshakeMessageReader) (HandshakeS
 	// Compute client traffic keys
 	clientTrafficKeys := makeTrafficKeys(state.cryptoParams, state.clientTrafficSecret)
 
-	state.hsCtx.receivedFinalFlight()
+	if err := state.hsCtx.receivedFinalFlight(); err != nil {
+		logf(logTypeHandshake, "[ServerStateWaitFinished] Error sending the final ACK: %v", err)
+		return nil, nil, AlertInternalError
+	}
 
 	logf(logTypeHandshake, "[ServerStateWaitFinished] -> [StateConnected]")
 	nextState := stateConnected{
-- 
2.43.0


From b3dd83f69bd9e588a91c4a82f527f865270fe0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 64/87] fix: a failure to send the session ticket stays the
 result of Handshake

---
 conn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conn.go b/conn.go
index e465fd4..ce0817c 100644
--- a/conn.go
+++ b/conn.go
@@ -948,6 +948,8 @@ func (c *Conn) Handshake() Alert {
 						alert = c.takeAction(action)
 						if alert != AlertNoAlert {
 							logf(logTypeHandshake, "Error during handshake actions: %v", alert)
+							c.handshakeAlert = alert
+							c.handshakeComplete = false
 							c.sendAlert(alert)
 							return alert
 						}
-- 
2.43.0


From ea1e9dc1432eb629ef179dcf62606c156d35d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:20 +0000
Subject: [PATCH 65/87] fix: a handshake ended by the peer's alert leaves the
 transport to the application, as before

---
 conn.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/conn.go b/conn.go
index ce0817c..7ef97a9 100644
--- a/conn.go
+++ b/conn.go
@@ -912,7 +912,6 @@ func (c *Conn) Handshake() Alert {
 			c.handshakeAlert = alert
 			if c.hsCtx.hIn.peerAlert {
 				// The peer knows.
-				c.Close()
 				return alert
 			}
 			c.sendAlert(alert)
-- 
2.43.0


From c3b8173f4198e812d9f2b45de4d3df13065e89e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 66/87] fix: Config.Clone keeps the record layer factory

---
 conn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conn.go b/conn.go
index 7ef97a9..3cbed3d 100644
--- a/conn.go
+++ b/conn.go
@@ -169,6 +169,7 @@ func (c *Config) Clone() *Config {
 		PSKModes:              c.PSKModes,
 		NonBlocking:           c.NonBlocking,
 		UseDTLS:               c.UseDTLS,
+		RecordLayer:           c.RecordLayer,
 	}
 }
 
-- 
2.43.0


From 64ce12193258102d823647cb88a2051a0bf8c1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:10 +0000
Subject: [PATCH 67/87] fix: a client whose PSK fits none of its cipher suites
 does a full handshake

---
 client-state-machine.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index c66778f..dffa646 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -68,6 +68,21 @@ func (state clientStateStart) State() State {
 	return StateClientStart
 }
 
+// offersHashOf reports whether a PSK for the suite psk can be used with one of
+// the suites offered.
+func offersHashOf(psk CipherSuite, suites []CipherSuite) bool {
+	params, known := cipherSuiteMap[psk]
+	if !known {
+		return true // an error later
+	}
+	for _, suite := range suites {
+		if cipherSuiteMap[suite].Hash == params.Hash {
+			return true
+		}
+	}
+	return false
+}
+
 func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, []HandshakeAction, Alert) {
 	// key_shares
 	offeredDH := map[NamedGroup][]byte{}
@@ -168,7 +183,12 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	var earlySecret []byte
 	var clientEarlyTrafficKeys KeySet
 	var clientHello *HandshakeMessage
-	if key, ok := state.Config.PSKs.Get(state.Opts.ServerName); ok {
+	key, ok := state.Config.PSKs.Get(state.Opts.ServerName)
+	if ok && !offersHashOf(key.CipherSuite, ch.CipherSuites) {
+		logf(logTypeHandshake, "[ClientStateStart] No ciphersuite for the PSK is enabled")
+		ok = false
+	}
+	if ok {
 		offeredPSK = key
 
 		// Narrow ciphersuites to ones that match PSK hash
-- 
2.43.0


From af2a7833d0721bd75579fa4c2d2e6c272160f770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 68/87] fix: dialling udp4 or udp6 uses DTLS, as udp does

---
 tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tls.go b/tls.go
index 4d22869..39f2e53 100644
--- a/tls.go
+++ b/tls.go
@@ -140,7 +140,7 @@ func DialWithDialer(dialer *net.Dialer, network, addr string, config *Config) (*
 	}
 
 	// Set up DTLS as needed.
-	config.UseDTLS = (network == "udp")
+	config.UseDTLS = strings.HasPrefix(network, "udp")
 
 	conn := Client(rawConn, config)
 
-- 
2.43.0


From 567db744d71355af9d50a4403212767097369a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:54 +0000
Subject: [PATCH 69/87] fix: decoding an optional field from no data is an
 error, not a panic

---
 syntax/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/syntax/decode.go b/syntax/decode.go
index 7cedc3c..6dc6a28 100644
--- a/syntax/decode.go
+++ b/syntax/decode.go
@@ -412,6 +412,10 @@ func (pd *pointerDecoder) decode(d *decodeState, v reflect.Value, opts fieldOpti
 	if opts.optional {
 		readBase = 1
 		flag := d.Next(1)
+		if len(flag) != 1 {
+			panic(fmt.Errorf("Insufficient data to read optional flag"))
+		}
+
 		switch flag[0] {
 		case optionalFlagAbsent:
 			indir := v.Elem()
-- 
2.43.0


From 36fa91b1f87095e8b2574c01f75558c6404b81cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:59 +0000
Subject: [PATCH 70/87] fix: decoding a vector of elements of zero size ends

---
 syntax/decode.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/syntax/decode.go b/syntax/decode.go
index 6dc6a28..5a268bf 100644
--- a/syntax/decode.go
+++ b/syntax/decode.go
@@ -290,7 +290,11 @@ func (sd *sliceDecoder) decode(d *decodeState, v reflect.Value, opts fieldOption
 	elems := []reflect.Value{}
 	for elemBuf.Len() > 0 {
 		elem := reflect.New(sd.elementType)
-		read += sd.elementDec(elemBuf, elem, opts)
+		elemRead := sd.elementDec(elemBuf, elem, opts)
+		if elemRead == 0 {
+			panic(fmt.Errorf("Data remaining for elements of zero size"))
+		}
+		read += elemRead
 		elems = append(elems, elem)
 	}
 
@@ -336,10 +340,14 @@ func (md mapDecoder) decode(d *decodeState, v reflect.Value, opts fieldOptions)
 	elemBuf.Write(elemData)
 	for elemBuf.Len() > 0 {
 		key := reflect.New(md.keyType)
-		read += md.keyDec(elemBuf, key, nullOpts)
+		pairRead := md.keyDec(elemBuf, key, nullOpts)
 
 		val := reflect.New(md.valType)
-		read += md.valDec(elemBuf, val, nullOpts)
+		pairRead += md.valDec(elemBuf, val, nullOpts)
+		if pairRead == 0 {
+			panic(fmt.Errorf("Data remaining for elements of zero size"))
+		}
+		read += pairRead
 
 		v.Elem().SetMapIndex(key.Elem(), val.Elem())
 	}
-- 
2.43.0


From 810f29217e884eb249340354f5839c78531a9321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:03 +0000
Subject: [PATCH 71/87] fix: a one-byte header counts when tags are checked for
 consistency

---
 syntax/tags.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syntax/tags.go b/syntax/tags.go
index 7734eea..1fb6d5b 100644
--- a/syntax/tags.go
+++ b/syntax/tags.go
@@ -42,7 +42,7 @@ func mutuallyExclusive(vals []bool) bool {
 
 func (opts fieldOptions) Consistent() bool {
 	// No more than one of the header options must be set
-	headerPaths := []bool{opts.omitHeader, opts.varintHeader, opts.headerSize > 1}
+	headerPaths := []bool{opts.omitHeader, opts.varintHeader, opts.headerSize > 0}
 	if !mutuallyExclusive(headerPaths) {
 		return false
 	}
@@ -53,7 +53,7 @@ func (opts fieldOptions) Consistent() bool {
 	}
 
 	// varint and optional are mutually exclusive with each other, and with the slice options
-	headerOpts := (opts.omitHeader || opts.varintHeader || opts.headerSize > 1 || opts.maxSize > 0 || opts.minSize > 0)
+	headerOpts := (opts.omitHeader || opts.varintHeader || opts.headerSize > 0 || opts.maxSize > 0 || opts.minSize > 0)
 	encodePaths := []bool{headerOpts, opts.varint, opts.optional}
 	if !mutuallyExclusive(encodePaths) {
 		return false
-- 
2.43.0


From bac8a0c75f883fff95d134c4ae19fa6131d49e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:08 +0000
Subject: [PATCH 72/87] fix: a server ignores key shares for groups it does not
 know

---
 extensions.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensions.go b/extensions.go
index 07cb16c..da559f6 100644
--- a/extensions.go
+++ b/extensions.go
@@ -265,8 +265,9 @@ func (ks *KeyShareExtension) Unmarshal(data []byte) (int, error) {
 			return 0, err
 		}
 
+		// Clients may offer shares for groups we do not know
 		for _, share := range inner.ClientShares {
-			if !share.SizeValid() {
+			if keyExchangeSizeFromNamedGroup(share.Group) != 0 && !share.SizeValid() {
 				return 0, fmt.Errorf("tls.keyshare: Key share has wrong size for group")
 			}
 		}
-- 
2.43.0


From b95777f1052ac1264d71afd66a2d1f9224ef3ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 73/87] fix: a TLS hello of another version is not encoded in
 the DTLS form

---
 handshake-messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handshake-messages.go b/handshake-messages.go
index 54e66d7..336d67a 100644
--- a/handshake-messages.go
+++ b/handshake-messages.go
@@ -56,7 +56,7 @@ func (ch ClientHelloBody) Type() HandshakeType {
 }
 
 func (ch ClientHelloBody) Marshal() ([]byte, error) {
-	if ch.LegacyVersion == tls12Version {
+	if ch.LegacyVersion != dtls12WireVersion {
 		return syntax.Marshal(clientHelloBodyInnerTLS{
 			LegacyVersion:            ch.LegacyVersion,
 			Random:                   ch.Random,
-- 
2.43.0


From 056e2c1843b30cfa53b236ff548b3d97d0793819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 74/87] fix: key shares for unknown groups encode as they were
 read

---
 extensions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions.go b/extensions.go
index da559f6..6776505 100644
--- a/extensions.go
+++ b/extensions.go
@@ -227,7 +227,7 @@ func (ks KeyShareExtension) Marshal() ([]byte, error) {
 	switch ks.HandshakeType {
 	case HandshakeTypeClientHello:
 		for _, share := range ks.Shares {
-			if !share.SizeValid() {
+			if keyExchangeSizeFromNamedGroup(share.Group) != 0 && !share.SizeValid() {
 				return nil, fmt.Errorf("tls.keyshare: Key share has wrong size for group")
 			}
 		}
-- 
2.43.0


From f16d423758e0d4f6741bab772f0397bf958ebef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:17 +0000
Subject: [PATCH 75/87] fix: a server's supported_versions holds exactly one
 version

---
 extensions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extensions.go b/extensions.go
index 6776505..619a68f 100644
--- a/extensions.go
+++ b/extensions.go
@@ -576,6 +576,9 @@ func (sv SupportedVersionsExtension) Marshal() ([]byte, error) {
 	case HandshakeTypeClientHello:
 		return syntax.Marshal(SupportedVersionsClientHelloInner{sv.Versions})
 	case HandshakeTypeServerHello, HandshakeTypeHelloRetryRequest:
+		if len(sv.Versions) != 1 {
+			return nil, fmt.Errorf("tls.supported_versions: Server must select exactly one version")
+		}
 		return syntax.Marshal(SupportedVersionsServerHelloInner{sv.Versions[0]})
 	default:
 		return nil, fmt.Errorf("tls.supported_versions: Handshake type not allowed")
-- 
2.43.0


From 6226baa0991b369e1f337da565e7a0c8f6feaf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 76/87] fix: looking up an extension that is there twice is an
 error

---
 extensions.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/extensions.go b/extensions.go
index 619a68f..d2003d9 100644
--- a/extensions.go
+++ b/extensions.go
@@ -100,16 +100,21 @@ func (el ExtensionList) Parse(dsts []ExtensionBody) (map[ExtensionType]bool, err
 }
 
 func (el ExtensionList) Find(dst ExtensionBody) (bool, error) {
+	found := false
 	for _, ext := range el {
 		if ext.ExtensionType == dst.Type() {
+			if found {
+				return true, fmt.Errorf("Duplicate extension of type [%v]", dst.Type())
+			}
+
 			err := safeUnmarshal(dst, ext.ExtensionData)
 			if err != nil {
 				return true, err
 			}
-			return true, nil
+			found = true
 		}
 	}
-	return false, nil
+	return found, nil
 }
 
 // struct {
-- 
2.43.0


From b7c36995979dee484c164c5ae04b4bb4afeb1164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 77/87] fix: do not let the DTLS epoch wrap around after 65532
 key updates

---
 conn.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 3cbed3d..09c9c59 100644
--- a/conn.go
+++ b/conn.go
@@ -722,8 +722,12 @@ func (c *Conn) takeAction(actionGeneric HandshakeAction) Alert {
 			return AlertDecodeError
 		}
 		epoch := action.epoch
-		if epoch == EpochUpdate && c.in.Epoch() >= EpochUpdate {
+		if c.config.UseDTLS && epoch == EpochUpdate && c.in.Epoch() >= EpochUpdate {
 			epoch = c.in.Epoch() + 1 // every update has an epoch of its own
+			if epoch < EpochUpdate {
+				logf(logTypeHandshake, "%s No inbound epoch left", label)
+				return AlertUnexpectedMessage
+			}
 		}
 		err := c.in.Rekey(epoch, action.KeySet.Cipher, &action.KeySet)
 		if err != nil {
@@ -734,8 +738,12 @@ func (c *Conn) takeAction(actionGeneric HandshakeAction) Alert {
 	case RekeyOut:
 		logf(logTypeHandshake, "%s Rekeying out to %s: %+v", label, action.epoch.label(), action.KeySet)
 		epoch := action.epoch
-		if epoch == EpochUpdate && c.out.Epoch() >= EpochUpdate {
+		if c.config.UseDTLS && epoch == EpochUpdate && c.out.Epoch() >= EpochUpdate {
 			epoch = c.out.Epoch() + 1 // every update has an epoch of its own
+			if epoch < EpochUpdate {
+				logf(logTypeHandshake, "%s No outbound epoch left", label)
+				return AlertInternalError
+			}
 		}
 		err := c.out.Rekey(epoch, action.KeySet.Cipher, &action.KeySet)
 		if err != nil {
@@ -983,6 +991,10 @@ func (c *Conn) SendKeyUpdate(requestUpdate bool) error {
 		return fmt.Errorf("Cannot update keys until after handshake")
 	}
 
+	if c.config.UseDTLS && c.out.Epoch()+1 == EpochClear {
+		return fmt.Errorf("No epoch left for another key update")
+	}
+
 	request := KeyUpdateNotRequested
 	if requestUpdate {
 		request = KeyUpdateRequested
-- 
2.43.0


From 9ddde0df435815a640ee1351c6be61e7aae8d8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 78/87] fix: forget the DTLS fragments that have been
 acknowledged

---
 dtls.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dtls.go b/dtls.go
index a198e01..c9ae70d 100644
--- a/dtls.go
+++ b/dtls.go
@@ -123,6 +123,7 @@ func (h *HandshakeContext) processAck(data []byte) error {
 	if count == 0 {
 		logf(logTypeHandshake, "All messages ACKed")
 		h.hOut.ClearQueuedMessages()
+		h.sentFragments = nil // and nothing refers to these any more
 		return nil
 	}
 
-- 
2.43.0


From 82d8f093a26fc907c1ab2cfa9ab06cccf291bbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 79/87] fix: bound what the DTLS reassembly keeps for a peer

---
 handshake-layer.go | 44 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index 21e050f..da73b2e 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -9,6 +9,9 @@ const (
 	handshakeHeaderLenTLS  = 4       // handshake message header length
 	handshakeHeaderLenDTLS = 12      // handshake message header length
 	maxHandshakeMessageLen = 1 << 24 // max handshake message length
+
+	maxMessagesAhead   = 256     // DTLS messages held beyond the next
+	maxFragmentsQueued = 1 << 16 // DTLS fragments held
 )
 
 // struct {
@@ -293,10 +296,21 @@ func (h *HandshakeLayer) reassemble(hm *HandshakeMessage) (*HandshakeMessage, er
 		return hm, nil
 	}
 
+	// Do not let a peer fill the memory: what is far ahead or too much will
+	// be retransmitted.
+	if hm.seq >= h.msgSeq+maxMessagesAhead || len(h.queued) >= maxFragmentsQueued {
+		return nil, nil
+	}
+
 	// Now insert sorted.
 	var i int
 	for i = 0; i < len(h.queued); i++ {
 		f := h.queued[i]
+		if hm.seq == f.seq && hm.length == f.length && hm.offset >= f.offset &&
+			hm.offset+uint32(len(hm.body)) <= f.offset+uint32(len(f.body)) {
+			// We have got this already.
+			return nil, nil
+		}
 		if hm.seq < f.seq {
 			break
 		}
@@ -330,20 +344,40 @@ func (h *HandshakeLayer) checkMessageAvailable() (*HandshakeMessage, error) {
 		return hm, nil
 	}
 
-	// OK, this at least might complete the message.
-	end := uint32(0)
-	buf := make([]byte, hm.length)
-
+	// OK, this at least might complete the message.  Only take the memory
+	// for one that is there.
+	have := uint32(0)
 	for _, f := range h.queued {
 		// Out of fragments
 		if f.seq > hm.seq {
 			break
 		}
 
-		if f.length != uint32(len(buf)) {
+		if f.length != hm.length {
 			return nil, fmt.Errorf("Mismatched DTLS length")
 		}
 
+		if f.offset > have {
+			break
+		}
+
+		if f.offset+uint32(len(f.body)) > have {
+			have = f.offset + uint32(len(f.body))
+		}
+	}
+	if have < hm.length {
+		return nil, nil
+	}
+
+	end := uint32(0)
+	buf := make([]byte, hm.length)
+
+	for _, f := range h.queued {
+		// Out of fragments
+		if f.seq > hm.seq {
+			break
+		}
+
 		if f.offset > end {
 			break
 		}
-- 
2.43.0


From c0cc6b97aeb132960f030b648a472fc69a626d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 80/87] fix: stop retransmitting the server's DTLS flight once
 the client has finished

---
 dtls.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtls.go b/dtls.go
index c9ae70d..c7528fa 100644
--- a/dtls.go
+++ b/dtls.go
@@ -196,6 +196,11 @@ func (h *HandshakeContext) receivedFinalFlight() error {
 	// Disarm the ACK timer
 	h.timers.cancel(ackTimerLabel)
 
+	// All of our own flight must have arrived.
+	h.hOut.ClearQueuedMessages()
+	h.timers.cancel(retransmitTimerLabel)
+	h.sentFragments = nil
+
 	// But send an ACK immediately.
 	return h.sendAck()
 }
-- 
2.43.0


From ec1ba37fbc288cea7415f96068949626ce724918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 81/87] fix: forget the read keys of long gone DTLS epochs

---
 conn.go | 3 +++
 dtls.go | 1 +
 2 files changed, 4 insertions(+)

diff --git a/conn.go b/conn.go
index 09c9c59..daa6d69 100644
--- a/conn.go
+++ b/conn.go
@@ -734,6 +734,9 @@ func (c *Conn) takeAction(actionGeneric HandshakeAction) Alert {
 			logf(logTypeHandshake, "%s Unable to rekey inbound: %v", label, err)
 			return AlertInternalError
 		}
+		if c.config.UseDTLS && epoch >= EpochApplicationData+maxReadEpochs {
+			c.in.DiscardReadKey(epoch - maxReadEpochs)
+		}
 
 	case RekeyOut:
 		logf(logTypeHandshake, "%s Rekeying out to %s: %+v", label, action.epoch.label(), action.KeySet)
diff --git a/dtls.go b/dtls.go
index c7528fa..842efd9 100644
--- a/dtls.go
+++ b/dtls.go
@@ -9,6 +9,7 @@ import (
 const (
 	initialMtu     = 1200
 	initialTimeout = 100
+	maxReadEpochs  = 8 // application data epochs that are still read
 )
 
 // labels for timers
-- 
2.43.0


From 2b716e39f344ea77d749c8f7b665079df09bacb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 82/87] fix: refuse to wrap the DTLS message sequence number

---
 handshake-layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/handshake-layer.go b/handshake-layer.go
index da73b2e..420f513 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -107,6 +107,9 @@ func (h *HandshakeLayer) HandshakeMessageFromBody(body HandshakeMessageBody) (*H
 	if err != nil {
 		return nil, err
 	}
+	if h.datagram && h.msgSeq > 0xffff {
+		return nil, fmt.Errorf("tls.handshakelayer: out of message sequence numbers")
+	}
 
 	m := &HandshakeMessage{
 		msgType:  body.Type(),
-- 
2.43.0


From fece5746209fea3831e893fa295b810072835909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 83/87] fix: keep a bounded record of the transmissions of a
 DTLS fragment

---
 dtls.go            | 20 ++++++++++++++++++++
 handshake-layer.go |  2 +-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/dtls.go b/dtls.go
index 842efd9..8addcca 100644
--- a/dtls.go
+++ b/dtls.go
@@ -10,6 +10,8 @@ const (
 	initialMtu     = 1200
 	initialTimeout = 100
 	maxReadEpochs  = 8 // application data epochs that are still read
+
+	maxTransmissions = 64 // transmissions of a fragment that can be ACKed
 )
 
 // labels for timers
@@ -206,6 +208,24 @@ func (h *HandshakeContext) receivedFinalFlight() error {
 	return h.sendAck()
 }
 
+// fragmentSent remembers |f|, and forgets the oldest of too many transmissions
+// of the same fragment.
+func (h *HandshakeContext) fragmentSent(f *SentHandshakeFragment) {
+	count, oldest := 0, 0
+	for i, s := range h.sentFragments {
+		if s.seq == f.seq && s.offset == f.offset && s.fragLength == f.fragLength {
+			if count == 0 {
+				oldest = i
+			}
+			count++
+		}
+	}
+	if count >= maxTransmissions {
+		h.sentFragments = append(h.sentFragments[:oldest], h.sentFragments[oldest+1:]...)
+	}
+	h.sentFragments = append(h.sentFragments, f)
+}
+
 func (h *HandshakeContext) fragmentAcked(seq uint32, offset int, fraglen int) bool {
 	logf(logTypeHandshake, "Looking to see if fragment %v %v(%v) was acked", seq, offset, fraglen)
 	for _, f := range h.sentFragments {
diff --git a/handshake-layer.go b/handshake-layer.go
index 420f513..8dcf291 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -529,7 +529,7 @@ func (h *HandshakeLayer) writeFragment(hm *HandshakeMessage, start int, room int
 	var err error
 	if h.datagram {
 		// Remember that we sent this.
-		h.ctx.sentFragments = append(h.ctx.sentFragments, &SentHandshakeFragment{
+		h.ctx.fragmentSent(&SentHandshakeFragment{
 			hm.seq,
 			start,
 			len(body),
-- 
2.43.0


From ee408f3d95c107a23c19525ccde9ef11d7502333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 84/87] fix: serialise what reading, writing and updating a
 connection send

---
 conn.go | 36 ++++++++++++++++++++++++++++--------
 dtls.go |  7 +++++++
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index daa6d69..9f7ebf0 100644
--- a/conn.go
+++ b/conn.go
@@ -416,6 +416,8 @@ func (c *Conn) processRecord(pt *TLSPlaintext) error {
 			c.sendAlert(AlertUnexpectedMessage)
 			return AlertUnexpectedMessage
 		}
+		c.out.Lock()
+		defer c.out.Unlock()
 		return c.hsCtx.processAck(pt.fragment)
 
 	case RecordTypeApplicationData:
@@ -475,13 +477,17 @@ func (c *Conn) processFragments(data []byte) error {
 // processPostHandshake handles a message received after the handshake.  |last|
 // tells if it ends the record that completed it.
 func (c *Conn) processPostHandshake(hm *HandshakeMessage, last bool) error {
+	// The state, and what is sent, are shared with SendKeyUpdate and Write.
+	c.out.Lock()
+	defer c.out.Unlock()
+
 	// XXX: If we want to support more advanced cases, e.g., post-handshake
 	// authentication, we'll need to allow transitions other than
 	// Connected -> Connected
 	state, actions, alert := c.state.ProcessMessage(hm)
 	if alert != AlertNoAlert {
 		logf(logTypeHandshake, "Error in state transition: %v", alert)
-		c.sendAlert(alert)
+		c.sendAlertLocked(alert)
 		return alert
 	}
 
@@ -489,13 +495,13 @@ func (c *Conn) processPostHandshake(hm *HandshakeMessage, last bool) error {
 		// The keys may only change at the end of a record.
 		if _, rekey := action.(RekeyIn); rekey && !last {
 			logf(logTypeHandshake, "Key change in the middle of a record")
-			c.sendAlert(AlertUnexpectedMessage)
+			c.sendAlertLocked(AlertUnexpectedMessage)
 			return AlertUnexpectedMessage
 		}
 		alert = c.takeAction(action)
 		if alert != AlertNoAlert {
 			logf(logTypeHandshake, "Error during handshake actions: %v", alert)
-			c.sendAlert(alert)
+			c.sendAlertLocked(alert)
 			return alert
 		}
 	}
@@ -504,7 +510,7 @@ func (c *Conn) processPostHandshake(hm *HandshakeMessage, last bool) error {
 	c.state, connected = state.(stateConnected)
 	if !connected {
 		logf(logTypeHandshake, "Disconnected after state transition: %v", alert)
-		c.sendAlert(alert)
+		c.sendAlertLocked(alert)
 		return io.EOF
 	}
 
@@ -559,7 +565,10 @@ func (c *Conn) Read(buffer []byte) (int, error) {
 
 	// Run our timers.
 	if c.config.UseDTLS {
-		if err := c.hsCtx.timers.check(time.Now()); err != nil {
+		c.out.Lock()
+		err := c.hsCtx.timers.check(time.Now())
+		c.out.Unlock()
+		if err != nil {
 			return 0, AlertInternalError
 		}
 	}
@@ -624,8 +633,16 @@ func (c *Conn) Write(buffer []byte) (int, error) {
 }
 
 // sendAlert sends a TLS alert message.
-// c.out.Mutex <= L.
 func (c *Conn) sendAlert(err Alert) error {
+	c.out.Lock()
+	defer c.out.Unlock()
+
+	return c.sendAlertLocked(err)
+}
+
+// sendAlertLocked sends a TLS alert message.
+// c.out.Mutex <= L.
+func (c *Conn) sendAlertLocked(err Alert) error {
 	c.handshakeMutex.Lock()
 	defer c.handshakeMutex.Unlock()
 
@@ -994,6 +1011,9 @@ func (c *Conn) SendKeyUpdate(requestUpdate bool) error {
 		return fmt.Errorf("Cannot update keys until after handshake")
 	}
 
+	c.out.Lock()
+	defer c.out.Unlock()
+
 	if c.config.UseDTLS && c.out.Epoch()+1 == EpochClear {
 		return fmt.Errorf("No epoch left for another key update")
 	}
@@ -1006,7 +1026,7 @@ func (c *Conn) SendKeyUpdate(requestUpdate bool) error {
 	// Create the key update and update state
 	actions, alert := c.state.KeyUpdate(request)
 	if alert != AlertNoAlert {
-		c.sendAlert(alert)
+		c.sendAlertLocked(alert)
 		return fmt.Errorf("Alert while generating key update: %v", alert)
 	}
 
@@ -1014,7 +1034,7 @@ func (c *Conn) SendKeyUpdate(requestUpdate bool) error {
 	for _, action := range actions {
 		alert = c.takeAction(action)
 		if alert != AlertNoAlert {
-			c.sendAlert(alert)
+			c.sendAlertLocked(alert)
 			return fmt.Errorf("Alert during key update actions: %v", alert)
 		}
 	}
diff --git a/dtls.go b/dtls.go
index 8addcca..fbbbf29 100644
--- a/dtls.go
+++ b/dtls.go
@@ -89,6 +89,9 @@ func (h *HandshakeContext) sendAck() error {
 
 // ackRecord acknowledges a record received after the handshake.
 func (h *HandshakeContext) ackRecord(record uint64) error {
+	h.hOut.conn.Lock()
+	defer h.hOut.conn.Unlock()
+
 	h.hIn.recvdRecords = []uint64{record}
 	return h.sendAck()
 }
@@ -139,6 +142,10 @@ func (h *HandshakeContext) processAck(data []byte) error {
 }
 
 func (c *Conn) GetDTLSTimeout() (bool, time.Duration) {
+	if c.out != nil {
+		c.out.Lock()
+		defer c.out.Unlock()
+	}
 	return c.hsCtx.timers.remaining()
 }
 
-- 
2.43.0


From 46223b9912c371b5dc3eb420770cce659c36a6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 85/87] fix: synchronize access to PSKMapCache

Connections that share a Config share its PSK cache, which they read and
write without any lock: a fatal 'concurrent map read and map write'.
---
 conn.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/conn.go b/conn.go
index 9f7ebf0..c08f9b9 100644
--- a/conn.go
+++ b/conn.go
@@ -49,16 +49,27 @@ type CookieHandler interface {
 
 type PSKMapCache map[string]PreSharedKey
 
+// A PSKMapCache is shared by all the connections that use the same Config, so
+// access to it needs to be synchronized.  A map has no place for a lock of its
+// own; there is a single one for all of them.
+var pskMapCacheMutex sync.RWMutex
+
 func (cache PSKMapCache) Get(key string) (psk PreSharedKey, ok bool) {
+	pskMapCacheMutex.RLock()
+	defer pskMapCacheMutex.RUnlock()
 	psk, ok = cache[key]
 	return
 }
 
 func (cache *PSKMapCache) Put(key string, psk PreSharedKey) {
+	pskMapCacheMutex.Lock()
+	defer pskMapCacheMutex.Unlock()
 	(*cache)[key] = psk
 }
 
 func (cache PSKMapCache) Size() int {
+	pskMapCacheMutex.RLock()
+	defer pskMapCacheMutex.RUnlock()
 	return len(cache)
 }
 
-- 
2.43.0


From 2227c3e95f15674fbc69f03c119597025b4e3320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 86/87] fix: set the default CookieProtector under the Config's
 mutex

Servers sharing a Config could each set one, and a client's cookie made with
one of them then failed to validate with the other.
---
 conn.go | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/conn.go b/conn.go
index c08f9b9..2f28d03 100644
--- a/conn.go
+++ b/conn.go
@@ -210,6 +210,29 @@ func (c *Config) Init(isClient bool) error {
 	return nil
 }
 
+// initCookieProtector provides a CookieProtector, if one is needed and there is
+// none yet.  The connections sharing the Config share it.
+func (c *Config) initCookieProtector() Alert {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	if !c.RequireCookie || c.CookieProtector != nil {
+		return AlertNoAlert
+	}
+	logf(logTypeHandshake, "RequireCookie set, but no CookieProtector provided. Using default cookie protector. Stateless Retry not possible.")
+	if c.NonBlocking {
+		logf(logTypeHandshake, "Not possible in non-blocking mode.")
+		return AlertInternalError
+	}
+	cookieProtector, err := NewDefaultCookieProtector()
+	if err != nil {
+		logf(logTypeHandshake, "Error initializing cookie source: %v", err)
+		return AlertInternalError
+	}
+	c.CookieProtector = cookieProtector
+	return AlertNoAlert
+}
+
 func (c *Config) ValidForServer() bool {
 	return (reflect.ValueOf(c.PSKs).IsValid() && c.PSKs.Size() > 0) ||
 		(len(c.Certificates) > 0 &&
@@ -835,18 +858,8 @@ func (c *Conn) HandshakeSetup() Alert {
 			}
 		}
 	} else {
-		if c.config.RequireCookie && c.config.CookieProtector == nil {
-			logf(logTypeHandshake, "RequireCookie set, but no CookieProtector provided. Using default cookie protector. Stateless Retry not possible.")
-			if c.config.NonBlocking {
-				logf(logTypeHandshake, "Not possible in non-blocking mode.")
-				return AlertInternalError
-			}
-			var err error
-			c.config.CookieProtector, err = NewDefaultCookieProtector()
-			if err != nil {
-				logf(logTypeHandshake, "Error initializing cookie source: %v", alert)
-				return AlertInternalError
-			}
+		if alert := c.config.initCookieProtector(); alert != AlertNoAlert {
+			return alert
 		}
 		state = serverStateStart{Config: c.config, conn: c, hsCtx: c.hsCtx}
 	}
-- 
2.43.0


From 5e73e9381a7b5ad086bb40753b32fab4627b88e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:11 +0000
Subject: [PATCH 87/87] fix: bound the early data a server holds while it waits
 for its end

---
 server-state-machine.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/server-state-machine.go b/server-state-machine.go
index 23a2319..8bfe727 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -786,6 +786,10 @@ func (state serverStateNegotiated) Next(_ handshakeMessageReader) (HandshakeStat
 	return nextState, toSend, AlertNoAlert
 }
 
+// minEarlyDataLimit is how many bytes of unread early data a server holds if it
+// does not announce a larger limit in its tickets.
+const minEarlyDataLimit = 1 << 20
+
 type serverStateWaitEOED struct {
 	Config                       *Config
 	Params                       ConnectionParameters
@@ -835,6 +839,17 @@ func (state serverStateWaitEOED) Next(hr handshakeMessageReader) (HandshakeState
 		}
 
 		logf(logTypeHandshake, "Server read early data: %x", pt.fragment)
+		// The application may not read it before the handshake is done, so there
+		// has to be an end to it.
+		limit := uint64(state.Config.EarlyDataLifetime)
+		if limit < minEarlyDataLimit {
+			limit = minEarlyDataLimit
+		}
+		if uint64(len(state.hsCtx.earlyData)+len(pt.fragment)) > limit {
+			logf(logTypeHandshake, "[ServerStateWaitEOED] Too much early data")
+			return nil, nil, AlertUnexpectedMessage
+		}
+
 		state.hsCtx.earlyData = append(state.hsCtx.earlyData, pt.fragment...)
 	}
 
-- 
2.43.0

