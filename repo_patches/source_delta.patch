From 923cd34af86f7cdd7ec629a3957def78868f8ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:03 +0000
Subject: [PATCH 01/76] fix: check remaining length before reading sequence and
 script bytes in DecodeRawTransaction

---
 bitcoincashTransaction/txStruct.go | 8 +++++++-
 bitcoinsvTransaction/txStruct.go   | 8 +++++++-
 btcTransaction/txStruct.go         | 8 +++++++-
 cxcTransaction/txStruct.go         | 8 +++++++-
 hcTransaction/txStruct.go          | 8 +++++++-
 omniTransaction/txStruct.go        | 8 +++++++-
 zencashTransaction/txStruct.go     | 8 +++++++-
 7 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index 4920b46..d17d771 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -218,7 +218,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -234,6 +234,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -325,6 +328,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
+				if index+1 > limit {
+					return nil, errors.New("Invalid transaction data length!")
+				}
 				if txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index 4f3394b..309a690 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -218,7 +218,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -234,6 +234,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -325,6 +328,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
+				if index+1 > limit {
+					return nil, errors.New("Invalid transaction data length!")
+				}
 				if txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index b16bb21..02a7eec 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -197,7 +197,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -213,6 +213,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -304,6 +307,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
+				if index+1 > limit {
+					return nil, errors.New("Invalid transaction data length!")
+				}
 				if txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index b0f1750..a4deb0d 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -228,7 +228,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -244,6 +244,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -335,6 +338,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
+				if index+1 > limit {
+					return nil, errors.New("Invalid transaction data length!")
+				}
 				if txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index e2dc2f9..936ed2e 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -197,7 +197,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -213,6 +213,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -304,6 +307,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
+				if index+1 > limit {
+					return nil, errors.New("Invalid transaction data length!")
+				}
 				if txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index 8a05cc0..53db5eb 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -197,7 +197,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -213,6 +213,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -304,6 +307,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
+				if index+1 > limit {
+					return nil, errors.New("Invalid transaction data length!")
+				}
 				if txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index 2464de3..bee6752 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -197,7 +197,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -213,6 +213,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -304,6 +307,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 				}
 
+				if index+1 > limit {
+					return nil, errors.New("Invalid transaction data length!")
+				}
 				if txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
-- 
2.43.0


From 260a9c9f59ed17713c127dfcb262138070fe1298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:03 +0000
Subject: [PATCH 02/76] fix: decodeMultiBytes panicked on m-of-n scripts with
 n-m >= 2 and on malformed redeem scripts

---
 bitcoincashTransaction/txMultiSig.go | 18 +++++++++++-------
 bitcoinsvTransaction/txMultiSig.go   | 18 +++++++++++-------
 btcTransaction/txMultiSig.go         | 18 +++++++++++-------
 cxcTransaction/txMultiSig.go         | 18 +++++++++++-------
 hcTransaction/txMultiSig.go          | 18 +++++++++++-------
 omniTransaction/txMultiSig.go        | 18 +++++++++++-------
 zencashTransaction/txMultiSig.go     | 18 +++++++++++-------
 7 files changed, 77 insertions(+), 49 deletions(-)

diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index 799b51c..9901606 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -135,6 +135,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
+	if index+1 > limit {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	if script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
@@ -192,7 +195,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -202,15 +205,16 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
 	pscript := script[index : len(script)-2]
 
-	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
-			sp = append(sp, SignaturePubkey{nil, nil})
-			st = append(st, 0)
-		}
+	if pubkeys < len(sp) {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
+	for len(sp) < pubkeys {
+		sp = append(sp, SignaturePubkey{nil, nil})
+		st = append(st, 0)
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index da9b52d..f77e66f 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -135,6 +135,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
+	if index+1 > limit {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	if script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
@@ -192,7 +195,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -202,15 +205,16 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
 	pscript := script[index : len(script)-2]
 
-	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
-			sp = append(sp, SignaturePubkey{nil, nil})
-			st = append(st, 0)
-		}
+	if pubkeys < len(sp) {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
+	for len(sp) < pubkeys {
+		sp = append(sp, SignaturePubkey{nil, nil})
+		st = append(st, 0)
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index 8f4b9b9..ce7f52a 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -135,6 +135,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
+	if index+1 > limit {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	if script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
@@ -192,7 +195,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -202,15 +205,16 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
 	pscript := script[index : len(script)-2]
 
-	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
-			sp = append(sp, SignaturePubkey{nil, nil})
-			st = append(st, 0)
-		}
+	if pubkeys < len(sp) {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
+	for len(sp) < pubkeys {
+		sp = append(sp, SignaturePubkey{nil, nil})
+		st = append(st, 0)
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index 817a3a6..1ae1fb5 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -135,6 +135,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
+	if index+1 > limit {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	if script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
@@ -192,7 +195,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -202,15 +205,16 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
 	pscript := script[index : len(script)-2]
 
-	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
-			sp = append(sp, SignaturePubkey{nil, nil})
-			st = append(st, 0)
-		}
+	if pubkeys < len(sp) {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
+	for len(sp) < pubkeys {
+		sp = append(sp, SignaturePubkey{nil, nil})
+		st = append(st, 0)
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index 54812bc..67704d4 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -135,6 +135,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
+	if index+1 > limit {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	if script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
@@ -192,7 +195,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -202,15 +205,16 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
 	pscript := script[index : len(script)-2]
 
-	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
-			sp = append(sp, SignaturePubkey{nil, nil})
-			st = append(st, 0)
-		}
+	if pubkeys < len(sp) {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
+	for len(sp) < pubkeys {
+		sp = append(sp, SignaturePubkey{nil, nil})
+		st = append(st, 0)
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index 0047f39..029337d 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -134,6 +134,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
+	if index+1 > limit {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	if script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
@@ -191,7 +194,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -201,15 +204,16 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
 	pscript := script[index : len(script)-2]
 
-	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
-			sp = append(sp, SignaturePubkey{nil, nil})
-			st = append(st, 0)
-		}
+	if pubkeys < len(sp) {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
+	for len(sp) < pubkeys {
+		sp = append(sp, SignaturePubkey{nil, nil})
+		st = append(st, 0)
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index d242f6c..9045ec6 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -135,6 +135,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 			return nil, nil, errors.New("Invalid multisig script data!")
 		}
 	}
+	if index+1 > limit {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	if script[index] != 0x00 {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
@@ -192,7 +195,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Multisig not completely signed!")
 	}
 
-	if index+int(redeemLen)-1 != limit {
+	if redeemLen < 3 || index+int(redeemLen)-1 != limit {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 
@@ -202,15 +205,16 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
 	pscript := script[index : len(script)-2]
 
-	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
-			sp = append(sp, SignaturePubkey{nil, nil})
-			st = append(st, 0)
-		}
+	if pubkeys < len(sp) {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
+	for len(sp) < pubkeys {
+		sp = append(sp, SignaturePubkey{nil, nil})
+		st = append(st, 0)
 	}
 
 	index = 0
-	limit = redeemLen
+	limit = len(pscript)
 	for i := 0; i < pubkeys; i++ {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid multisig script data!")
-- 
2.43.0


From 99539d9bf8418b27c7f4bb080785019c378b2feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:44 +0000
Subject: [PATCH 03/76] fix: InsertSignatureIntoEmptyTransaction reported
 success with an empty result, or panicked, on mismatching data

---
 bitcoincashTransaction/transaction.go | 11 +++++++++--
 bitcoincashTransaction/txHash.go      |  2 +-
 bitcoinsvTransaction/transaction.go   | 11 +++++++++--
 bitcoinsvTransaction/txHash.go        |  2 +-
 btcTransaction/transaction.go         | 11 +++++++++--
 btcTransaction/txHash.go              |  2 +-
 cxcTransaction/transaction.go         | 11 +++++++++--
 cxcTransaction/txHash.go              |  2 +-
 hcTransaction/transaction.go          | 11 +++++++++--
 hcTransaction/txHash.go               |  2 +-
 omniTransaction/transaction.go        | 11 +++++++++--
 omniTransaction/txHash.go             |  2 +-
 zencashTransaction/transaction.go     |  4 ++++
 zencashTransaction/txHash.go          |  2 +-
 14 files changed, 65 insertions(+), 19 deletions(-)

diff --git a/bitcoincashTransaction/transaction.go b/bitcoincashTransaction/transaction.go
index 4513070..6221930 100644
--- a/bitcoincashTransaction/transaction.go
+++ b/bitcoincashTransaction/transaction.go
@@ -109,9 +109,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -121,7 +125,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
+		}
+		if (inType == TypeMultiSig) != txHashes[i].IsMultisig() {
+			return "", errors.New("The signature data does not match the type of the input!")
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index e13ef84..b615f35 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -276,7 +276,7 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
-		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
+		if t.Normal == nil || t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
 		if t.Normal.SigPub.Pubkey == nil || len(t.Normal.SigPub.Pubkey) != 33 {
diff --git a/bitcoinsvTransaction/transaction.go b/bitcoinsvTransaction/transaction.go
index 1eeb0a7..24d784e 100644
--- a/bitcoinsvTransaction/transaction.go
+++ b/bitcoinsvTransaction/transaction.go
@@ -109,9 +109,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -121,7 +125,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
+		}
+		if (inType == TypeMultiSig) != txHashes[i].IsMultisig() {
+			return "", errors.New("The signature data does not match the type of the input!")
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index 99da856..a72fe23 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -277,7 +277,7 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
-		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
+		if t.Normal == nil || t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
 		if t.Normal.SigPub.Pubkey == nil || len(t.Normal.SigPub.Pubkey) != 33 {
diff --git a/btcTransaction/transaction.go b/btcTransaction/transaction.go
index 09586d4..31ac17a 100644
--- a/btcTransaction/transaction.go
+++ b/btcTransaction/transaction.go
@@ -95,9 +95,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -107,7 +111,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
+		}
+		if (inType == TypeMultiSig) != txHashes[i].IsMultisig() {
+			return "", errors.New("The signature data does not match the type of the input!")
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/btcTransaction/txHash.go b/btcTransaction/txHash.go
index edc1edc..49fd590 100644
--- a/btcTransaction/txHash.go
+++ b/btcTransaction/txHash.go
@@ -280,7 +280,7 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
-		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
+		if t.Normal == nil || t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
 		if t.Normal.SigPub.Pubkey == nil || len(t.Normal.SigPub.Pubkey) != 33 {
diff --git a/cxcTransaction/transaction.go b/cxcTransaction/transaction.go
index 2f2d266..2b55a08 100644
--- a/cxcTransaction/transaction.go
+++ b/cxcTransaction/transaction.go
@@ -114,9 +114,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -126,7 +130,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
+		}
+		if (inType == TypeMultiSig) != txHashes[i].IsMultisig() {
+			return "", errors.New("The signature data does not match the type of the input!")
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/cxcTransaction/txHash.go b/cxcTransaction/txHash.go
index d61ed0b..07e4b64 100644
--- a/cxcTransaction/txHash.go
+++ b/cxcTransaction/txHash.go
@@ -279,7 +279,7 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
-		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
+		if t.Normal == nil || t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
 		if t.Normal.SigPub.Pubkey == nil || len(t.Normal.SigPub.Pubkey) != 33 {
diff --git a/hcTransaction/transaction.go b/hcTransaction/transaction.go
index 10922cb..c9be9c1 100644
--- a/hcTransaction/transaction.go
+++ b/hcTransaction/transaction.go
@@ -95,9 +95,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -107,7 +111,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
+		}
+		if (inType == TypeMultiSig) != txHashes[i].IsMultisig() {
+			return "", errors.New("The signature data does not match the type of the input!")
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/hcTransaction/txHash.go b/hcTransaction/txHash.go
index 2a046ee..5e3afb4 100644
--- a/hcTransaction/txHash.go
+++ b/hcTransaction/txHash.go
@@ -280,7 +280,7 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
-		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
+		if t.Normal == nil || t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
 		if t.Normal.SigPub.Pubkey == nil || len(t.Normal.SigPub.Pubkey) != 33 {
diff --git a/omniTransaction/transaction.go b/omniTransaction/transaction.go
index c3f007a..b8a8355 100644
--- a/omniTransaction/transaction.go
+++ b/omniTransaction/transaction.go
@@ -92,9 +92,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit, err := isSegwit(unlockData, false)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !false {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -104,7 +108,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
+		}
+		if (inType == TypeMultiSig) != txHashes[i].IsMultisig() {
+			return "", errors.New("The signature data does not match the type of the input!")
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/omniTransaction/txHash.go b/omniTransaction/txHash.go
index d482fb6..d66b9f2 100644
--- a/omniTransaction/txHash.go
+++ b/omniTransaction/txHash.go
@@ -279,7 +279,7 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
-		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
+		if t.Normal == nil || t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
 		if t.Normal.SigPub.Pubkey == nil || len(t.Normal.SigPub.Pubkey) != 33 {
diff --git a/zencashTransaction/transaction.go b/zencashTransaction/transaction.go
index 7c7f156..c6572f3 100644
--- a/zencashTransaction/transaction.go
+++ b/zencashTransaction/transaction.go
@@ -94,6 +94,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if len(emptyTrans.Vins) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	segwit := false
 
 	if segwit && !SegwitON {
diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index cfa6039..1a65b08 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -281,7 +281,7 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
-		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
+		if t.Normal == nil || t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
 		if t.Normal.SigPub.Pubkey == nil || len(t.Normal.SigPub.Pubkey) != 33 {
-- 
2.43.0


From 493bf150ff6d8377809d984c550583e5c2a0a107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:44 +0000
Subject: [PATCH 04/76] fix: encodeSignatureToScript panicked when r or s is
 zero

---
 bitcoincashTransaction/SignaturePubkey.go | 4 ++--
 bitcoinsvTransaction/SignaturePubkey.go   | 4 ++--
 btcTransaction/SignaturePubkey.go         | 4 ++--
 cxcTransaction/SignaturePubkey.go         | 4 ++--
 hcTransaction/SignaturePubkey.go          | 4 ++--
 omniTransaction/SignaturePubkey.go        | 4 ++--
 zencashTransaction/SignaturePubkey.go     | 4 ++--
 7 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/bitcoincashTransaction/SignaturePubkey.go b/bitcoincashTransaction/SignaturePubkey.go
index f1c5f6a..f555689 100644
--- a/bitcoincashTransaction/SignaturePubkey.go
+++ b/bitcoincashTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/bitcoinsvTransaction/SignaturePubkey.go b/bitcoinsvTransaction/SignaturePubkey.go
index b377fa8..d52ad0f 100644
--- a/bitcoinsvTransaction/SignaturePubkey.go
+++ b/bitcoinsvTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/btcTransaction/SignaturePubkey.go b/btcTransaction/SignaturePubkey.go
index 1a9d48f..8c9faf9 100644
--- a/btcTransaction/SignaturePubkey.go
+++ b/btcTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/cxcTransaction/SignaturePubkey.go b/cxcTransaction/SignaturePubkey.go
index ea881d2..d039e74 100644
--- a/cxcTransaction/SignaturePubkey.go
+++ b/cxcTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/hcTransaction/SignaturePubkey.go b/hcTransaction/SignaturePubkey.go
index 97538b5..28bb1e8 100644
--- a/hcTransaction/SignaturePubkey.go
+++ b/hcTransaction/SignaturePubkey.go
@@ -58,7 +58,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -69,7 +69,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/omniTransaction/SignaturePubkey.go b/omniTransaction/SignaturePubkey.go
index 4d682ae..7f5cb00 100644
--- a/omniTransaction/SignaturePubkey.go
+++ b/omniTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/zencashTransaction/SignaturePubkey.go b/zencashTransaction/SignaturePubkey.go
index 1115e0d..fbe23cb 100644
--- a/zencashTransaction/SignaturePubkey.go
+++ b/zencashTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
-- 
2.43.0


From db2a7fd35728209512dcb725b379328c63ef4e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:44 +0000
Subject: [PATCH 05/76] fix: serilizeS returned a short signature when the
 normalized S has two or more leading zero bytes

---
 bitcoincashTransaction/SignaturePubkey.go | 6 ++----
 bitcoinsvTransaction/SignaturePubkey.go   | 6 ++----
 btcTransaction/SignaturePubkey.go         | 6 ++----
 cxcTransaction/SignaturePubkey.go         | 6 ++----
 hcTransaction/SignaturePubkey.go          | 6 ++----
 omniTransaction/SignaturePubkey.go        | 6 ++----
 zencashTransaction/SignaturePubkey.go     | 6 ++----
 7 files changed, 14 insertions(+), 28 deletions(-)

diff --git a/bitcoincashTransaction/SignaturePubkey.go b/bitcoincashTransaction/SignaturePubkey.go
index f555689..61454a4 100644
--- a/bitcoincashTransaction/SignaturePubkey.go
+++ b/bitcoincashTransaction/SignaturePubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/bitcoinsvTransaction/SignaturePubkey.go b/bitcoinsvTransaction/SignaturePubkey.go
index d52ad0f..e4f4d27 100644
--- a/bitcoinsvTransaction/SignaturePubkey.go
+++ b/bitcoinsvTransaction/SignaturePubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/btcTransaction/SignaturePubkey.go b/btcTransaction/SignaturePubkey.go
index 8c9faf9..f3fd351 100644
--- a/btcTransaction/SignaturePubkey.go
+++ b/btcTransaction/SignaturePubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/cxcTransaction/SignaturePubkey.go b/cxcTransaction/SignaturePubkey.go
index d039e74..1c294ce 100644
--- a/cxcTransaction/SignaturePubkey.go
+++ b/cxcTransaction/SignaturePubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/hcTransaction/SignaturePubkey.go b/hcTransaction/SignaturePubkey.go
index 28bb1e8..0f7e6f0 100644
--- a/hcTransaction/SignaturePubkey.go
+++ b/hcTransaction/SignaturePubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/omniTransaction/SignaturePubkey.go b/omniTransaction/SignaturePubkey.go
index 7f5cb00..342834a 100644
--- a/omniTransaction/SignaturePubkey.go
+++ b/omniTransaction/SignaturePubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/zencashTransaction/SignaturePubkey.go b/zencashTransaction/SignaturePubkey.go
index fbe23cb..739c8bd 100644
--- a/zencashTransaction/SignaturePubkey.go
+++ b/zencashTransaction/SignaturePubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
-- 
2.43.0


From 8159a136e4127a92426b30b1b1748f4658d6ac3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:44 +0000
Subject: [PATCH 06/76] fix: VerifyRawTransaction panicked on mismatching
 scripts and accepted duplicate or foreign multisig keys

---
 bitcoincashTransaction/transaction.go | 30 ++++++++++++++++++++++++---
 bitcoinsvTransaction/transaction.go   | 30 ++++++++++++++++++++++++---
 btcTransaction/transaction.go         | 30 ++++++++++++++++++++++++---
 cxcTransaction/transaction.go         | 30 ++++++++++++++++++++++++---
 hcTransaction/transaction.go          | 30 ++++++++++++++++++++++++---
 omniTransaction/transaction.go        | 30 ++++++++++++++++++++++++---
 zencashTransaction/transaction.go     | 30 ++++++++++++++++++++++++---
 7 files changed, 189 insertions(+), 21 deletions(-)

diff --git a/bitcoincashTransaction/transaction.go b/bitcoincashTransaction/transaction.go
index 6221930..5cd2b41 100644
--- a/bitcoincashTransaction/transaction.go
+++ b/bitcoincashTransaction/transaction.go
@@ -214,6 +214,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if txHash[i].Normal == nil {
+				return false
+			}
 
 			txHash[i].Normal.SigPub = *sigpub
 			txHash[i].Normal.SigType = sigType
@@ -222,27 +225,48 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if len(sigpub) != len(txHash[i].Multi) {
+				return false
+			}
 			for j := 0; j < len(sigpub); j++ {
+				if hex.EncodeToString(sigpub[j].Pubkey) != txHash[i].Multi[j].Pubkey {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
+		} else {
+			return false
 		}
 	}
 
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+			if t.Normal == nil {
+				return false
+			}
+			point := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if point == nil {
+				return false
+			}
+			pubkey := point[1:]
 			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+				for j := next; j < len(t.Multi); j++ {
+					point := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if point == nil {
+						continue
+					}
+					pubkey := point[1:]
 					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						next = j + 1
 						break
 					}
 				}
diff --git a/bitcoinsvTransaction/transaction.go b/bitcoinsvTransaction/transaction.go
index 24d784e..95bc65e 100644
--- a/bitcoinsvTransaction/transaction.go
+++ b/bitcoinsvTransaction/transaction.go
@@ -214,6 +214,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if txHash[i].Normal == nil {
+				return false
+			}
 
 			txHash[i].Normal.SigPub = *sigpub
 			txHash[i].Normal.SigType = sigType
@@ -222,27 +225,48 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if len(sigpub) != len(txHash[i].Multi) {
+				return false
+			}
 			for j := 0; j < len(sigpub); j++ {
+				if hex.EncodeToString(sigpub[j].Pubkey) != txHash[i].Multi[j].Pubkey {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
+		} else {
+			return false
 		}
 	}
 
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+			if t.Normal == nil {
+				return false
+			}
+			point := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if point == nil {
+				return false
+			}
+			pubkey := point[1:]
 			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+				for j := next; j < len(t.Multi); j++ {
+					point := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if point == nil {
+						continue
+					}
+					pubkey := point[1:]
 					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						next = j + 1
 						break
 					}
 				}
diff --git a/btcTransaction/transaction.go b/btcTransaction/transaction.go
index 31ac17a..94e8942 100644
--- a/btcTransaction/transaction.go
+++ b/btcTransaction/transaction.go
@@ -200,6 +200,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if txHash[i].Normal == nil {
+				return false
+			}
 
 			txHash[i].Normal.SigPub = *sigpub
 			txHash[i].Normal.SigType = sigType
@@ -208,27 +211,48 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if len(sigpub) != len(txHash[i].Multi) {
+				return false
+			}
 			for j := 0; j < len(sigpub); j++ {
+				if hex.EncodeToString(sigpub[j].Pubkey) != txHash[i].Multi[j].Pubkey {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
+		} else {
+			return false
 		}
 	}
 
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+			if t.Normal == nil {
+				return false
+			}
+			point := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if point == nil {
+				return false
+			}
+			pubkey := point[1:]
 			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+				for j := next; j < len(t.Multi); j++ {
+					point := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if point == nil {
+						continue
+					}
+					pubkey := point[1:]
 					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						next = j + 1
 						break
 					}
 				}
diff --git a/cxcTransaction/transaction.go b/cxcTransaction/transaction.go
index 2b55a08..2ef2469 100644
--- a/cxcTransaction/transaction.go
+++ b/cxcTransaction/transaction.go
@@ -219,6 +219,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if txHash[i].Normal == nil {
+				return false
+			}
 
 			txHash[i].Normal.SigPub = *sigpub
 			txHash[i].Normal.SigType = sigType
@@ -227,27 +230,48 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if len(sigpub) != len(txHash[i].Multi) {
+				return false
+			}
 			for j := 0; j < len(sigpub); j++ {
+				if hex.EncodeToString(sigpub[j].Pubkey) != txHash[i].Multi[j].Pubkey {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
+		} else {
+			return false
 		}
 	}
 
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+			if t.Normal == nil {
+				return false
+			}
+			point := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if point == nil {
+				return false
+			}
+			pubkey := point[1:]
 			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+				for j := next; j < len(t.Multi); j++ {
+					point := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if point == nil {
+						continue
+					}
+					pubkey := point[1:]
 					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						next = j + 1
 						break
 					}
 				}
diff --git a/hcTransaction/transaction.go b/hcTransaction/transaction.go
index c9be9c1..9fdba5a 100644
--- a/hcTransaction/transaction.go
+++ b/hcTransaction/transaction.go
@@ -200,6 +200,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if txHash[i].Normal == nil {
+				return false
+			}
 
 			txHash[i].Normal.SigPub = *sigpub
 			txHash[i].Normal.SigType = sigType
@@ -208,27 +211,48 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if len(sigpub) != len(txHash[i].Multi) {
+				return false
+			}
 			for j := 0; j < len(sigpub); j++ {
+				if hex.EncodeToString(sigpub[j].Pubkey) != txHash[i].Multi[j].Pubkey {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
+		} else {
+			return false
 		}
 	}
 
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+			if t.Normal == nil {
+				return false
+			}
+			point := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if point == nil {
+				return false
+			}
+			pubkey := point[1:]
 			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+				for j := next; j < len(t.Multi); j++ {
+					point := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if point == nil {
+						continue
+					}
+					pubkey := point[1:]
 					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						next = j + 1
 						break
 					}
 				}
diff --git a/omniTransaction/transaction.go b/omniTransaction/transaction.go
index b8a8355..2ff3623 100644
--- a/omniTransaction/transaction.go
+++ b/omniTransaction/transaction.go
@@ -197,6 +197,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 			if err != nil {
 				return false
 			}
+			if txHash[i].Normal == nil {
+				return false
+			}
 
 			txHash[i].Normal.SigPub = *sigpub
 			txHash[i].Normal.SigType = sigType
@@ -205,27 +208,48 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 			if err != nil {
 				return false
 			}
+			if len(sigpub) != len(txHash[i].Multi) {
+				return false
+			}
 			for j := 0; j < len(sigpub); j++ {
+				if hex.EncodeToString(sigpub[j].Pubkey) != txHash[i].Multi[j].Pubkey {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
+		} else {
+			return false
 		}
 	}
 
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+			if t.Normal == nil {
+				return false
+			}
+			point := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if point == nil {
+				return false
+			}
+			pubkey := point[1:]
 			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+				for j := next; j < len(t.Multi); j++ {
+					point := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if point == nil {
+						continue
+					}
+					pubkey := point[1:]
 					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						next = j + 1
 						break
 					}
 				}
diff --git a/zencashTransaction/transaction.go b/zencashTransaction/transaction.go
index c6572f3..33b3de9 100644
--- a/zencashTransaction/transaction.go
+++ b/zencashTransaction/transaction.go
@@ -152,6 +152,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if txHash[i].Normal == nil {
+				return false
+			}
 
 			txHash[i].Normal.SigPub = *sigpub
 			txHash[i].Normal.SigType = sigType
@@ -160,27 +163,48 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
+			if len(sigpub) != len(txHash[i].Multi) {
+				return false
+			}
 			for j := 0; j < len(sigpub); j++ {
+				if hex.EncodeToString(sigpub[j].Pubkey) != txHash[i].Multi[j].Pubkey {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
+		} else {
+			return false
 		}
 	}
 
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+			if t.Normal == nil {
+				return false
+			}
+			point := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+			if point == nil {
+				return false
+			}
+			pubkey := point[1:]
 			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 				return false
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+				for j := next; j < len(t.Multi); j++ {
+					point := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+					if point == nil {
+						continue
+					}
+					pubkey := point[1:]
 					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						next = j + 1
 						break
 					}
 				}
-- 
2.43.0


From e3d7e9b8fa8761c158f758332a995cb283b2ef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:00 +0000
Subject: [PATCH 07/76] fix: VerifyRawTransaction accepted signatures of keys
 that do not own the input, and foreign hash types

---
 bitcoincashTransaction/transaction.go | 26 +++++++++++++++++++++++++-
 bitcoinsvTransaction/transaction.go   | 26 +++++++++++++++++++++++++-
 btcTransaction/transaction.go         | 26 +++++++++++++++++++++++++-
 cxcTransaction/transaction.go         | 26 +++++++++++++++++++++++++-
 hcTransaction/transaction.go          | 26 +++++++++++++++++++++++++-
 omniTransaction/transaction.go        | 26 +++++++++++++++++++++++++-
 zencashTransaction/transaction.go     |  5 ++++-
 7 files changed, 154 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/transaction.go b/bitcoincashTransaction/transaction.go
index 5cd2b41..7d2cbbd 100644
--- a/bitcoincashTransaction/transaction.go
+++ b/bitcoincashTransaction/transaction.go
@@ -1,6 +1,7 @@
 package bitcoincashTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -214,7 +215,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
-			if txHash[i].Normal == nil {
+			if txHash[i].Normal == nil || sigType != unlockData[i].SigType || !ownsInput(sigpub.Pubkey, unlockData[i]) {
 				return false
 			}
 
@@ -232,6 +233,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				if hex.EncodeToString(sigpub[j].Pubkey) != txHash[i].Multi[j].Pubkey {
 					return false
 				}
+				if sigpub[j].Signature != nil && sigType[j] != unlockData[i].SigType {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
@@ -278,3 +282,23 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 	return true
 }
+
+// ownsInput tells whether the pubkey hashes to the key hash the unspent output is locked to
+func ownsInput(pubkey []byte, unlock TxUnlock) bool {
+	lock, redeem, inType, err := checkScriptType(unlock.LockScript, unlock.RedeemScript)
+	if err != nil {
+		return false
+	}
+	var keyHash []byte
+	switch inType {
+	case TypeP2PKH:
+		keyHash = lock[3:23]
+	case TypeP2WPKH:
+		keyHash = redeem[2:22]
+	case TypeBech32:
+		keyHash = lock[2:22]
+	default:
+		return false
+	}
+	return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), keyHash)
+}
diff --git a/bitcoinsvTransaction/transaction.go b/bitcoinsvTransaction/transaction.go
index 95bc65e..945c319 100644
--- a/bitcoinsvTransaction/transaction.go
+++ b/bitcoinsvTransaction/transaction.go
@@ -1,6 +1,7 @@
 package bitcoinsvTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -214,7 +215,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
-			if txHash[i].Normal == nil {
+			if txHash[i].Normal == nil || sigType != unlockData[i].SigType || !ownsInput(sigpub.Pubkey, unlockData[i]) {
 				return false
 			}
 
@@ -232,6 +233,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				if hex.EncodeToString(sigpub[j].Pubkey) != txHash[i].Multi[j].Pubkey {
 					return false
 				}
+				if sigpub[j].Signature != nil && sigType[j] != unlockData[i].SigType {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
@@ -278,3 +282,23 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 	return true
 }
+
+// ownsInput tells whether the pubkey hashes to the key hash the unspent output is locked to
+func ownsInput(pubkey []byte, unlock TxUnlock) bool {
+	lock, redeem, inType, err := checkScriptType(unlock.LockScript, unlock.RedeemScript)
+	if err != nil {
+		return false
+	}
+	var keyHash []byte
+	switch inType {
+	case TypeP2PKH:
+		keyHash = lock[3:23]
+	case TypeP2WPKH:
+		keyHash = redeem[2:22]
+	case TypeBech32:
+		keyHash = lock[2:22]
+	default:
+		return false
+	}
+	return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), keyHash)
+}
diff --git a/btcTransaction/transaction.go b/btcTransaction/transaction.go
index 94e8942..d9744ed 100644
--- a/btcTransaction/transaction.go
+++ b/btcTransaction/transaction.go
@@ -1,6 +1,7 @@
 package btcTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -200,7 +201,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
-			if txHash[i].Normal == nil {
+			if txHash[i].Normal == nil || sigType != unlockData[i].SigType || !ownsInput(sigpub.Pubkey, unlockData[i]) {
 				return false
 			}
 
@@ -218,6 +219,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				if hex.EncodeToString(sigpub[j].Pubkey) != txHash[i].Multi[j].Pubkey {
 					return false
 				}
+				if sigpub[j].Signature != nil && sigType[j] != unlockData[i].SigType {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
@@ -264,3 +268,23 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 	return true
 }
+
+// ownsInput tells whether the pubkey hashes to the key hash the unspent output is locked to
+func ownsInput(pubkey []byte, unlock TxUnlock) bool {
+	lock, redeem, inType, err := checkScriptType(unlock.LockScript, unlock.RedeemScript)
+	if err != nil {
+		return false
+	}
+	var keyHash []byte
+	switch inType {
+	case TypeP2PKH:
+		keyHash = lock[3:23]
+	case TypeP2WPKH:
+		keyHash = redeem[2:22]
+	case TypeBech32:
+		keyHash = lock[2:22]
+	default:
+		return false
+	}
+	return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), keyHash)
+}
diff --git a/cxcTransaction/transaction.go b/cxcTransaction/transaction.go
index 2ef2469..5329f7e 100644
--- a/cxcTransaction/transaction.go
+++ b/cxcTransaction/transaction.go
@@ -1,6 +1,7 @@
 package cxcTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 	"github.com/blocktree/go-owcrypt"
@@ -219,7 +220,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
-			if txHash[i].Normal == nil {
+			if txHash[i].Normal == nil || sigType != unlockData[i].SigType || !ownsInput(sigpub.Pubkey, unlockData[i]) {
 				return false
 			}
 
@@ -237,6 +238,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				if hex.EncodeToString(sigpub[j].Pubkey) != txHash[i].Multi[j].Pubkey {
 					return false
 				}
+				if sigpub[j].Signature != nil && sigType[j] != unlockData[i].SigType {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
@@ -283,3 +287,23 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 	return true
 }
+
+// ownsInput tells whether the pubkey hashes to the key hash the unspent output is locked to
+func ownsInput(pubkey []byte, unlock TxUnlock) bool {
+	lock, redeem, inType, err := checkScriptType(unlock.LockScript, unlock.RedeemScript)
+	if err != nil {
+		return false
+	}
+	var keyHash []byte
+	switch inType {
+	case TypeP2PKH:
+		keyHash = lock[3:23]
+	case TypeP2WPKH:
+		keyHash = redeem[2:22]
+	case TypeBech32:
+		keyHash = lock[2:22]
+	default:
+		return false
+	}
+	return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), keyHash)
+}
diff --git a/hcTransaction/transaction.go b/hcTransaction/transaction.go
index 9fdba5a..337cca3 100644
--- a/hcTransaction/transaction.go
+++ b/hcTransaction/transaction.go
@@ -1,6 +1,7 @@
 package hcTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -200,7 +201,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
-			if txHash[i].Normal == nil {
+			if txHash[i].Normal == nil || sigType != unlockData[i].SigType || !ownsInput(sigpub.Pubkey, unlockData[i]) {
 				return false
 			}
 
@@ -218,6 +219,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				if hex.EncodeToString(sigpub[j].Pubkey) != txHash[i].Multi[j].Pubkey {
 					return false
 				}
+				if sigpub[j].Signature != nil && sigType[j] != unlockData[i].SigType {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
@@ -264,3 +268,23 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 	return true
 }
+
+// ownsInput tells whether the pubkey hashes to the key hash the unspent output is locked to
+func ownsInput(pubkey []byte, unlock TxUnlock) bool {
+	lock, redeem, inType, err := checkScriptType(unlock.LockScript, unlock.RedeemScript)
+	if err != nil {
+		return false
+	}
+	var keyHash []byte
+	switch inType {
+	case TypeP2PKH:
+		keyHash = lock[3:23]
+	case TypeP2WPKH:
+		keyHash = redeem[2:22]
+	case TypeBech32:
+		keyHash = lock[2:22]
+	default:
+		return false
+	}
+	return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), keyHash)
+}
diff --git a/omniTransaction/transaction.go b/omniTransaction/transaction.go
index 2ff3623..a2cd2b0 100644
--- a/omniTransaction/transaction.go
+++ b/omniTransaction/transaction.go
@@ -1,6 +1,7 @@
 package omniTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -197,7 +198,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 			if err != nil {
 				return false
 			}
-			if txHash[i].Normal == nil {
+			if txHash[i].Normal == nil || sigType != unlockData[i].SigType || !ownsInput(sigpub.Pubkey, unlockData[i]) {
 				return false
 			}
 
@@ -215,6 +216,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 				if hex.EncodeToString(sigpub[j].Pubkey) != txHash[i].Multi[j].Pubkey {
 					return false
 				}
+				if sigpub[j].Signature != nil && sigType[j] != unlockData[i].SigType {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
@@ -261,3 +265,23 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 	}
 	return true
 }
+
+// ownsInput tells whether the pubkey hashes to the key hash the unspent output is locked to
+func ownsInput(pubkey []byte, unlock TxUnlock) bool {
+	lock, redeem, inType, err := checkScriptType(unlock.LockScript, unlock.RedeemScript)
+	if err != nil {
+		return false
+	}
+	var keyHash []byte
+	switch inType {
+	case TypeP2PKH:
+		keyHash = lock[3:23]
+	case TypeP2WPKH:
+		keyHash = redeem[2:22]
+	case TypeBech32:
+		keyHash = lock[2:22]
+	default:
+		return false
+	}
+	return bytes.Equal(owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160), keyHash)
+}
diff --git a/zencashTransaction/transaction.go b/zencashTransaction/transaction.go
index 33b3de9..ef1caab 100644
--- a/zencashTransaction/transaction.go
+++ b/zencashTransaction/transaction.go
@@ -152,7 +152,7 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			if err != nil {
 				return false
 			}
-			if txHash[i].Normal == nil {
+			if txHash[i].Normal == nil || sigType != unlockData[i].SigType {
 				return false
 			}
 
@@ -170,6 +170,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 				if hex.EncodeToString(sigpub[j].Pubkey) != txHash[i].Multi[j].Pubkey {
 					return false
 				}
+				if sigpub[j].Signature != nil && sigType[j] != unlockData[i].SigType {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
-- 
2.43.0


From 9d229ca2ddc83f367edbad768b2099a7f0b52ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:12 +0000
Subject: [PATCH 08/76] fix: zencash signature hashes panicked on a short or
 malformed lock script

---
 zencashTransaction/txHash.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index 1a65b08..073b66c 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -260,7 +260,10 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 		//if err != nil {
 		//	return nil, err
 		//}
-		lockBytes, _ := hex.DecodeString(unlockData[i].LockScript)
+		lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
+		if err != nil || len(lockBytes) < 25 {
+			return nil, errors.New("Invalid scriptPubkey data!")
+		}
 
 		sigBytes, err := t.getBytesForSig(lockBytes, nil, TypeP2PKH, unlockData[i].SigType, i, unlockData[i].Amount, SegwitON)
 		if err != nil {
-- 
2.43.0


From 7da691e13716c2631c6b25e2e284e1c12e6a3ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:12 +0000
Subject: [PATCH 09/76] fix: CreateMultiSig compared the threshold with a
 truncated key count

---
 bitcoincashTransaction/txMultiSig.go | 2 +-
 bitcoinsvTransaction/txMultiSig.go   | 2 +-
 btcTransaction/txMultiSig.go         | 2 +-
 cxcTransaction/txMultiSig.go         | 2 +-
 hcTransaction/txMultiSig.go          | 2 +-
 omniTransaction/txMultiSig.go        | 2 +-
 zencashTransaction/txMultiSig.go     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index 9901606..dab767d 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index f77e66f..2528e69 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index ce7f52a..73e1b4a 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index 1ae1fb5..ec885cd 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index 67704d4..b3e8467 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index 029337d..531f038 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, addressPrefix AddressPrefix
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index 9045ec6..fae75c6 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
-- 
2.43.0


From 5e8c42dea94c575e260addf6deee7dc3c8cbaa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:40 +0000
Subject: [PATCH 10/76] fix: DecodeCheck panicked on base58 strings too short
 to hold a checksum, and took version-less addresses

---
 aliencoinTransaction/base58.go      | 3 +++
 bitcoincashTransaction/base58.go    | 3 +++
 bitcoinsvTransaction/base58.go      | 3 +++
 btcLikeTxDriver/base58.go           | 3 +++
 btcTransaction/base58.go            | 3 +++
 cxcTransaction/base58.go            | 3 +++
 elastosTransaction/base58.go        | 3 +++
 fiiiTransaction/base58.go           | 3 +++
 hcTransaction/base58.go             | 3 +++
 hypercashTransaction/base58.go      | 3 +++
 omniTransaction/base58.go           | 3 +++
 ontologyTransaction/base58.go       | 3 +++
 vergeTransaction/base58.go          | 3 +++
 virtualeconomyTransaction/base58.go | 3 +++
 vollarTransaction/base58.go         | 3 +++
 waykichainTransaction/base58.go     | 3 +++
 zencashTransaction/base58.go        | 3 +++
 17 files changed, 51 insertions(+)

diff --git a/aliencoinTransaction/base58.go b/aliencoinTransaction/base58.go
index 53908d2..aec31bb 100644
--- a/aliencoinTransaction/base58.go
+++ b/aliencoinTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) <= 4 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/bitcoincashTransaction/base58.go b/bitcoincashTransaction/base58.go
index d518067..b3565bb 100644
--- a/bitcoincashTransaction/base58.go
+++ b/bitcoincashTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) <= 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/bitcoinsvTransaction/base58.go b/bitcoinsvTransaction/base58.go
index af85206..e562197 100644
--- a/bitcoinsvTransaction/base58.go
+++ b/bitcoinsvTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) <= 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/btcLikeTxDriver/base58.go b/btcLikeTxDriver/base58.go
index a6a9b0d..a79e4b2 100644
--- a/btcLikeTxDriver/base58.go
+++ b/btcLikeTxDriver/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) <= 4 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/btcTransaction/base58.go b/btcTransaction/base58.go
index 96f8fe2..1ff5627 100644
--- a/btcTransaction/base58.go
+++ b/btcTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) <= 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/cxcTransaction/base58.go b/cxcTransaction/base58.go
index ccd7ea2..0f20851 100644
--- a/cxcTransaction/base58.go
+++ b/cxcTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) <= 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/elastosTransaction/base58.go b/elastosTransaction/base58.go
index 04054e6..101d9bc 100644
--- a/elastosTransaction/base58.go
+++ b/elastosTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) <= 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/fiiiTransaction/base58.go b/fiiiTransaction/base58.go
index 2226867..e351c84 100644
--- a/fiiiTransaction/base58.go
+++ b/fiiiTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string, prefix []byte) ([]byte, error) {
 	if err != nil {
 		return nil, errors.New("Invalid address!")
 	}
+	if len(ret) < len(prefix)+4 {
+		return nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/hcTransaction/base58.go b/hcTransaction/base58.go
index 772572c..90032f3 100644
--- a/hcTransaction/base58.go
+++ b/hcTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) <= 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/hypercashTransaction/base58.go b/hypercashTransaction/base58.go
index 020220b..c041f38 100644
--- a/hypercashTransaction/base58.go
+++ b/hypercashTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) <= 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_BLAKE256), 0, owcrypt.HASH_ALG_BLAKE256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/omniTransaction/base58.go b/omniTransaction/base58.go
index b080ce9..bef265d 100644
--- a/omniTransaction/base58.go
+++ b/omniTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) <= 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/ontologyTransaction/base58.go b/ontologyTransaction/base58.go
index 3f28e8c..7a059c1 100644
--- a/ontologyTransaction/base58.go
+++ b/ontologyTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) <= 4 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/vergeTransaction/base58.go b/vergeTransaction/base58.go
index 7b1da8a..36cf7a9 100644
--- a/vergeTransaction/base58.go
+++ b/vergeTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) <= 4 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/virtualeconomyTransaction/base58.go b/virtualeconomyTransaction/base58.go
index 999f35b..bf60a58 100644
--- a/virtualeconomyTransaction/base58.go
+++ b/virtualeconomyTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, error) {
 	if err != nil {
 		return nil, errors.New("Invalid address!")
 	}
+	if len(ret) <= 4 {
+		return nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(owcrypt.Hash(ret[:len(ret)-4], 32, owcrypt.HASH_ALG_BLAKE2B), 0, owcrypt.HASH_ALG_KECCAK256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/vollarTransaction/base58.go b/vollarTransaction/base58.go
index 786201c..72d5243 100644
--- a/vollarTransaction/base58.go
+++ b/vollarTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) <= 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/waykichainTransaction/base58.go b/waykichainTransaction/base58.go
index 80d3f60..76d5552 100644
--- a/waykichainTransaction/base58.go
+++ b/waykichainTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) <= 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/zencashTransaction/base58.go b/zencashTransaction/base58.go
index 25b462c..663ba09 100644
--- a/zencashTransaction/base58.go
+++ b/zencashTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) <= 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
-- 
2.43.0


From e9f45d09880b23cf1f88a2463380110a05720fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:41 +0000
Subject: [PATCH 11/76] fix: reverseBytesToHex reversed the caller's slice in
 place, so GetTxID corrupted the decoded transaction

---
 bigbangTransaction/txUtils.go     | 2 +-
 bitcoincashTransaction/txUtils.go | 2 +-
 bitcoinsvTransaction/txUtils.go   | 2 +-
 btcLikeTxDriver/utils.go          | 2 +-
 btcTransaction/txUtils.go         | 2 +-
 cxcTransaction/txUtils.go         | 2 +-
 hcTransaction/txUtils.go          | 2 +-
 hypercashTransaction/txUtils.go   | 2 +-
 mateverseTransaction/txUtils.go   | 2 +-
 omniTransaction/txUtils.go        | 2 +-
 ontologyTransaction/txUtils.go    | 2 +-
 zencashTransaction/txUtils.go     | 2 +-
 12 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/bigbangTransaction/txUtils.go b/bigbangTransaction/txUtils.go
index 833e89c..3d93928 100644
--- a/bigbangTransaction/txUtils.go
+++ b/bigbangTransaction/txUtils.go
@@ -28,7 +28,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 
diff --git a/bitcoincashTransaction/txUtils.go b/bitcoincashTransaction/txUtils.go
index bd720a6..9e7a7c5 100644
--- a/bitcoincashTransaction/txUtils.go
+++ b/bitcoincashTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/bitcoinsvTransaction/txUtils.go b/bitcoinsvTransaction/txUtils.go
index e5af84f..bbc3217 100644
--- a/bitcoinsvTransaction/txUtils.go
+++ b/bitcoinsvTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/btcLikeTxDriver/utils.go b/btcLikeTxDriver/utils.go
index 3fc84d4..120af24 100644
--- a/btcLikeTxDriver/utils.go
+++ b/btcLikeTxDriver/utils.go
@@ -28,7 +28,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint32ToLittleEndianBytes
diff --git a/btcTransaction/txUtils.go b/btcTransaction/txUtils.go
index 141260c..51ade1f 100644
--- a/btcTransaction/txUtils.go
+++ b/btcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/cxcTransaction/txUtils.go b/cxcTransaction/txUtils.go
index 1d2b04b..176ba4e 100644
--- a/cxcTransaction/txUtils.go
+++ b/cxcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/hcTransaction/txUtils.go b/hcTransaction/txUtils.go
index ea4dc67..5c10266 100644
--- a/hcTransaction/txUtils.go
+++ b/hcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/hypercashTransaction/txUtils.go b/hypercashTransaction/txUtils.go
index 075a6bb..3f68709 100644
--- a/hypercashTransaction/txUtils.go
+++ b/hypercashTransaction/txUtils.go
@@ -29,7 +29,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 func uint16ToBigEndianBytes(data uint16) []byte {
diff --git a/mateverseTransaction/txUtils.go b/mateverseTransaction/txUtils.go
index 21d8dd7..9d50377 100644
--- a/mateverseTransaction/txUtils.go
+++ b/mateverseTransaction/txUtils.go
@@ -41,7 +41,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/omniTransaction/txUtils.go b/omniTransaction/txUtils.go
index 0b571a3..2cfe632 100644
--- a/omniTransaction/txUtils.go
+++ b/omniTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/ontologyTransaction/txUtils.go b/ontologyTransaction/txUtils.go
index c4b23f3..b6de0a0 100644
--- a/ontologyTransaction/txUtils.go
+++ b/ontologyTransaction/txUtils.go
@@ -29,7 +29,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/zencashTransaction/txUtils.go b/zencashTransaction/txUtils.go
index cfbdb71..6ce82e7 100644
--- a/zencashTransaction/txUtils.go
+++ b/zencashTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
-- 
2.43.0


From 30273d1a183379b6fffcfae0fbee6a8ebfe30419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:00 +0000
Subject: [PATCH 12/76] fix: CreateMultiSig encoded the script hash under the
 pubkey-hash prefix, so coins sent there were lost

---
 bitcoincashTransaction/txMultiSig.go | 2 +-
 bitcoinsvTransaction/txMultiSig.go   | 2 +-
 btcTransaction/txMultiSig.go         | 2 +-
 cxcTransaction/txMultiSig.go         | 2 +-
 hcTransaction/txMultiSig.go          | 2 +-
 omniTransaction/txMultiSig.go        | 2 +-
 zencashTransaction/txMultiSig.go     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index dab767d..0d18366 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index 2528e69..1de66e9 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index 73e1b4a..32d8039 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index ec885cd..74f9930 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index b3e8467..7942847 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index 531f038..78c8937 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -55,7 +55,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, addressPrefix AddressPrefix
 	} else {
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index fae75c6..bc53d90 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
-- 
2.43.0


From 65894f0daf224c1aba28fa04e8ffde6334476e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:43 +0000
Subject: [PATCH 13/76] fix: bech32 destinations of another network, witness
 version or program length were paid as version 0

---
 btcLikeTxDriver/bech32.go    | 2 +-
 btcLikeTxDriver/txOut.go     | 2 +-
 btcTransaction/bech32.go     | 2 +-
 btcTransaction/txOut.go      | 4 ++--
 cosmosTransaction/bech32.go  | 2 +-
 cxcTransaction/bech32.go     | 2 +-
 cxcTransaction/txOut.go      | 2 +-
 evaioTransaction/bech32.go   | 2 +-
 hcTransaction/bech32.go      | 2 +-
 hcTransaction/txOut.go       | 2 +-
 omniTransaction/bech32.go    | 2 +-
 omniTransaction/txOut.go     | 2 +-
 zencashTransaction/bech32.go | 2 +-
 zencashTransaction/txOut.go  | 2 +-
 14 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/btcLikeTxDriver/bech32.go b/btcLikeTxDriver/bech32.go
index 828b11c..68a4a7b 100644
--- a/btcLikeTxDriver/bech32.go
+++ b/btcLikeTxDriver/bech32.go
@@ -200,7 +200,7 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
-	if !verifyChecksum(prefixStr, value) {
+	if len(value) < 8 || value[0] != 0 || !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
 
diff --git a/btcLikeTxDriver/txOut.go b/btcLikeTxDriver/txOut.go
index a99cd2d..9d51e8b 100644
--- a/btcLikeTxDriver/txOut.go
+++ b/btcLikeTxDriver/txOut.go
@@ -16,7 +16,7 @@ func newTxOutForEmptyTrans(vout []Vout) ([]TxOut, error) {
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, Bech32Prefix) == 0 {
+		if strings.HasPrefix(v.Address, Bech32Prefix+"1") {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
diff --git a/btcTransaction/bech32.go b/btcTransaction/bech32.go
index 61bcae7..6da0d9c 100644
--- a/btcTransaction/bech32.go
+++ b/btcTransaction/bech32.go
@@ -201,7 +201,7 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
-	if !verifyChecksum(prefixStr, value) {
+	if len(value) < 8 || value[0] != 0 || !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
 
diff --git a/btcTransaction/txOut.go b/btcTransaction/txOut.go
index ff18646..e262d51 100644
--- a/btcTransaction/txOut.go
+++ b/btcTransaction/txOut.go
@@ -27,9 +27,9 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(v.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(v.Address)
-			if err != nil {
+			if err != nil || (len(redeem) != 20 && len(redeem) != 32) {
 				return nil, errors.New("Invalid bech32 type address!")
 			}
 
diff --git a/cosmosTransaction/bech32.go b/cosmosTransaction/bech32.go
index 91d2afd..8da6008 100644
--- a/cosmosTransaction/bech32.go
+++ b/cosmosTransaction/bech32.go
@@ -201,7 +201,7 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
-	if !verifyChecksum(prefixStr, value) {
+	if len(value) < 8 || !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
 
diff --git a/cxcTransaction/bech32.go b/cxcTransaction/bech32.go
index 530a591..6a75f91 100644
--- a/cxcTransaction/bech32.go
+++ b/cxcTransaction/bech32.go
@@ -201,7 +201,7 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
-	if !verifyChecksum(prefixStr, value) {
+	if len(value) < 8 || value[0] != 0 || !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
 
diff --git a/cxcTransaction/txOut.go b/cxcTransaction/txOut.go
index 03088fa..b22d3ed 100644
--- a/cxcTransaction/txOut.go
+++ b/cxcTransaction/txOut.go
@@ -25,7 +25,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(v.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
diff --git a/evaioTransaction/bech32.go b/evaioTransaction/bech32.go
index f594278..c5f3b82 100644
--- a/evaioTransaction/bech32.go
+++ b/evaioTransaction/bech32.go
@@ -201,7 +201,7 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
-	if !verifyChecksum(prefixStr, value) {
+	if len(value) < 8 || !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
 
diff --git a/hcTransaction/bech32.go b/hcTransaction/bech32.go
index b6cb6e8..5cbbded 100644
--- a/hcTransaction/bech32.go
+++ b/hcTransaction/bech32.go
@@ -201,7 +201,7 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
-	if !verifyChecksum(prefixStr, value) {
+	if len(value) < 8 || value[0] != 0 || !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
 
diff --git a/hcTransaction/txOut.go b/hcTransaction/txOut.go
index 36c4f52..7f5017c 100644
--- a/hcTransaction/txOut.go
+++ b/hcTransaction/txOut.go
@@ -25,7 +25,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(v.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
diff --git a/omniTransaction/bech32.go b/omniTransaction/bech32.go
index 640b491..83c0999 100644
--- a/omniTransaction/bech32.go
+++ b/omniTransaction/bech32.go
@@ -201,7 +201,7 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
-	if !verifyChecksum(prefixStr, value) {
+	if len(value) < 8 || value[0] != 0 || !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
 
diff --git a/omniTransaction/txOut.go b/omniTransaction/txOut.go
index 5539515..9cae4b6 100644
--- a/omniTransaction/txOut.go
+++ b/omniTransaction/txOut.go
@@ -25,7 +25,7 @@ func newTxOutForEmptyTrans(vout []Vout, omniDetail OmniStruct, addressPrefix Add
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(v.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
diff --git a/zencashTransaction/bech32.go b/zencashTransaction/bech32.go
index c11aebd..45d1486 100644
--- a/zencashTransaction/bech32.go
+++ b/zencashTransaction/bech32.go
@@ -201,7 +201,7 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
-	if !verifyChecksum(prefixStr, value) {
+	if len(value) < 8 || value[0] != 0 || !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
 
diff --git a/zencashTransaction/txOut.go b/zencashTransaction/txOut.go
index 73ea817..1a32386 100644
--- a/zencashTransaction/txOut.go
+++ b/zencashTransaction/txOut.go
@@ -42,7 +42,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(v.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
-- 
2.43.0


From 888c263e3ae721c9066eb75efe81abdeece01cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:41 +0000
Subject: [PATCH 14/76] fix: serilizeS returned a short signature in the
 remaining drivers when the normalized S has leading zero bytes

---
 aliencoinTransaction/txSigPub.go    | 6 ++----
 binancechainTransaction/utils.go    | 6 ++----
 btcLikeTxDriver/signaturepubkey.go  | 6 ++----
 cosmosTransaction/transaction.go    | 6 ++----
 evaioTransaction/transaction.go     | 6 ++----
 hypercashTransaction/txSignature.go | 6 ++----
 mateverseTransaction/txUtils.go     | 6 ++----
 ontologyTransaction/txSigPub.go     | 6 ++----
 rippleTransaction/txUtils.go        | 6 ++----
 vergeTransaction/txSigPub.go        | 6 ++----
 vollarTransaction/txSigPub.go       | 6 ++----
 11 files changed, 22 insertions(+), 44 deletions(-)

diff --git a/aliencoinTransaction/txSigPub.go b/aliencoinTransaction/txSigPub.go
index e36fdda..71a40d7 100644
--- a/aliencoinTransaction/txSigPub.go
+++ b/aliencoinTransaction/txSigPub.go
@@ -26,10 +26,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/binancechainTransaction/utils.go b/binancechainTransaction/utils.go
index 2bf9143..6fd9da2 100644
--- a/binancechainTransaction/utils.go
+++ b/binancechainTransaction/utils.go
@@ -20,10 +20,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/btcLikeTxDriver/signaturepubkey.go b/btcLikeTxDriver/signaturepubkey.go
index 0a0d002..9b87b07 100644
--- a/btcLikeTxDriver/signaturepubkey.go
+++ b/btcLikeTxDriver/signaturepubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/cosmosTransaction/transaction.go b/cosmosTransaction/transaction.go
index 3393e7c..75cdf4e 100644
--- a/cosmosTransaction/transaction.go
+++ b/cosmosTransaction/transaction.go
@@ -36,10 +36,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/evaioTransaction/transaction.go b/evaioTransaction/transaction.go
index 381e17d..5ff217b 100644
--- a/evaioTransaction/transaction.go
+++ b/evaioTransaction/transaction.go
@@ -36,10 +36,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/hypercashTransaction/txSignature.go b/hypercashTransaction/txSignature.go
index 8a812a6..e6053d3 100644
--- a/hypercashTransaction/txSignature.go
+++ b/hypercashTransaction/txSignature.go
@@ -18,10 +18,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/mateverseTransaction/txUtils.go b/mateverseTransaction/txUtils.go
index 9d50377..3d24f0c 100644
--- a/mateverseTransaction/txUtils.go
+++ b/mateverseTransaction/txUtils.go
@@ -89,10 +89,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/ontologyTransaction/txSigPub.go b/ontologyTransaction/txSigPub.go
index 71ac866..b9d303d 100644
--- a/ontologyTransaction/txSigPub.go
+++ b/ontologyTransaction/txSigPub.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/rippleTransaction/txUtils.go b/rippleTransaction/txUtils.go
index 67d3f05..fcaf16e 100644
--- a/rippleTransaction/txUtils.go
+++ b/rippleTransaction/txUtils.go
@@ -103,10 +103,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/vergeTransaction/txSigPub.go b/vergeTransaction/txSigPub.go
index da17646..8745ee7 100644
--- a/vergeTransaction/txSigPub.go
+++ b/vergeTransaction/txSigPub.go
@@ -26,10 +26,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/vollarTransaction/txSigPub.go b/vollarTransaction/txSigPub.go
index b919b89..dad0917 100644
--- a/vollarTransaction/txSigPub.go
+++ b/vollarTransaction/txSigPub.go
@@ -26,10 +26,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
-- 
2.43.0


From f0a663d75599aa0ba0b62937ede9d5b2b3ae9488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:41 +0000
Subject: [PATCH 15/76] fix: SignTransactionHash panicked instead of failing on
 a private key outside the curve order (cosmos, evaio)

---
 cosmosTransaction/transaction.go | 3 +--
 evaioTransaction/transaction.go  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/cosmosTransaction/transaction.go b/cosmosTransaction/transaction.go
index 75cdf4e..571950c 100644
--- a/cosmosTransaction/transaction.go
+++ b/cosmosTransaction/transaction.go
@@ -54,11 +54,10 @@ func SignTransactionHash(txHash string, prikey []byte) (string, error) {
 	}
 
 	sig,_, ret := owcrypt.Signature(prikey, nil, hash, owcrypt.ECC_CURVE_SECP256K1)
-	sig = serilizeS(sig)
-
 	if ret != owcrypt.SUCCESS {
 		return "", errors.New("Signature failed!")
 	}
+	sig = serilizeS(sig)
 
 	return hex.EncodeToString(sig), nil
 }
diff --git a/evaioTransaction/transaction.go b/evaioTransaction/transaction.go
index 5ff217b..c4f02e9 100644
--- a/evaioTransaction/transaction.go
+++ b/evaioTransaction/transaction.go
@@ -54,11 +54,10 @@ func SignTransactionHash(txHash string, prikey []byte) (string, error) {
 	}
 
 	sig,_, ret := owcrypt.Signature(prikey, nil, hash, owcrypt.ECC_CURVE_SECP256K1)
-	sig = serilizeS(sig)
-
 	if ret != owcrypt.SUCCESS {
 		return "", errors.New("Signature failed!")
 	}
+	sig = serilizeS(sig)
 
 	return hex.EncodeToString(sig), nil
 }
-- 
2.43.0


From 2382598a1ee86243e2c1fc49c66bc4e82368f90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:28 +0000
Subject: [PATCH 16/76] fix: counts and script lengths of 253 and above were
 written as a single truncated byte

---
 bitcoincashTransaction/txHash.go   |  2 +-
 bitcoincashTransaction/txIn.go     |  2 +-
 bitcoincashTransaction/txStruct.go | 18 +++++++++---------
 bitcoincashTransaction/txUtils.go  | 22 ++++++++++++++++++++++
 bitcoinsvTransaction/txHash.go     |  2 +-
 bitcoinsvTransaction/txIn.go       |  2 +-
 bitcoinsvTransaction/txStruct.go   | 18 +++++++++---------
 bitcoinsvTransaction/txUtils.go    | 22 ++++++++++++++++++++++
 btcTransaction/txHash.go           |  2 +-
 btcTransaction/txIn.go             |  2 +-
 btcTransaction/txStruct.go         | 18 +++++++++---------
 btcTransaction/txUtils.go          | 22 ++++++++++++++++++++++
 cxcTransaction/txHash.go           |  2 +-
 cxcTransaction/txIn.go             |  2 +-
 cxcTransaction/txStruct.go         | 18 +++++++++---------
 cxcTransaction/txUtils.go          | 22 ++++++++++++++++++++++
 hcTransaction/txHash.go            |  2 +-
 hcTransaction/txIn.go              |  2 +-
 hcTransaction/txStruct.go          | 18 +++++++++---------
 hcTransaction/txUtils.go           | 22 ++++++++++++++++++++++
 omniTransaction/txHash.go          |  2 +-
 omniTransaction/txIn.go            |  2 +-
 omniTransaction/txStruct.go        | 18 +++++++++---------
 omniTransaction/txUtils.go         | 22 ++++++++++++++++++++++
 zencashTransaction/txHash.go       |  2 +-
 zencashTransaction/txIn.go         |  2 +-
 zencashTransaction/txStruct.go     | 18 +++++++++---------
 zencashTransaction/txUtils.go      | 22 ++++++++++++++++++++++
 28 files changed, 231 insertions(+), 77 deletions(-)

diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index b615f35..1365c77 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -162,7 +162,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/bitcoincashTransaction/txIn.go b/bitcoincashTransaction/txIn.go
index eff3b46..1ad7e20 100644
--- a/bitcoincashTransaction/txIn.go
+++ b/bitcoincashTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, compactSize(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index d17d771..31147b1 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -78,7 +78,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, compactSize(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -87,7 +87,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, compactSize(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -146,13 +146,13 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	if index+1 > limit {
 		return nil, errors.New("Invalid transaction data length!")
 	}
-	numOfVins := txBytes[index]
-	index++
+	numOfVins, used := readCompactSize(txBytes[index:])
+	index += used
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -246,13 +246,13 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		return nil, errors.New("Invalid transaction data length!")
 	}
 
-	numOfVouts := txBytes[index]
-	index++
+	numOfVouts, used := readCompactSize(txBytes[index:])
+	index += used
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -281,7 +281,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
diff --git a/bitcoincashTransaction/txUtils.go b/bitcoincashTransaction/txUtils.go
index 9e7a7c5..edb2f09 100644
--- a/bitcoincashTransaction/txUtils.go
+++ b/bitcoincashTransaction/txUtils.go
@@ -122,3 +122,25 @@ func uint64ToBigEndianBytes(data uint64) []byte {
 func bigEndianBytesToUint64(data []byte) uint64 {
 	return binary.BigEndian.Uint64(data)
 }
+
+// compactSize encodes a count or length the way the network does
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+// readCompactSize reads a count or length of at most 0xFFFF, and how many bytes it takes (0 if there is none)
+func readCompactSize(data []byte) (int, int) {
+	if len(data) >= 1 && data[0] < 0xFD {
+		return int(data[0]), 1
+	}
+	if len(data) >= 3 && data[0] == 0xFD {
+		return int(littleEndianBytesToUint16(data[1:3])), 3
+	}
+	return 0, 0
+}
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index a72fe23..3c6e74e 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -163,7 +163,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/bitcoinsvTransaction/txIn.go b/bitcoinsvTransaction/txIn.go
index 80b7a5b..1623335 100644
--- a/bitcoinsvTransaction/txIn.go
+++ b/bitcoinsvTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, compactSize(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index 309a690..2a3c43d 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -78,7 +78,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, compactSize(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -87,7 +87,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, compactSize(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -146,13 +146,13 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	if index+1 > limit {
 		return nil, errors.New("Invalid transaction data length!")
 	}
-	numOfVins := txBytes[index]
-	index++
+	numOfVins, used := readCompactSize(txBytes[index:])
+	index += used
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -246,13 +246,13 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		return nil, errors.New("Invalid transaction data length!")
 	}
 
-	numOfVouts := txBytes[index]
-	index++
+	numOfVouts, used := readCompactSize(txBytes[index:])
+	index += used
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -281,7 +281,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
diff --git a/bitcoinsvTransaction/txUtils.go b/bitcoinsvTransaction/txUtils.go
index bbc3217..0390eaf 100644
--- a/bitcoinsvTransaction/txUtils.go
+++ b/bitcoinsvTransaction/txUtils.go
@@ -122,3 +122,25 @@ func uint64ToBigEndianBytes(data uint64) []byte {
 func bigEndianBytesToUint64(data []byte) uint64 {
 	return binary.BigEndian.Uint64(data)
 }
+
+// compactSize encodes a count or length the way the network does
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+// readCompactSize reads a count or length of at most 0xFFFF, and how many bytes it takes (0 if there is none)
+func readCompactSize(data []byte) (int, int) {
+	if len(data) >= 1 && data[0] < 0xFD {
+		return int(data[0]), 1
+	}
+	if len(data) >= 3 && data[0] == 0xFD {
+		return int(littleEndianBytesToUint16(data[1:3])), 3
+	}
+	return 0, 0
+}
diff --git a/btcTransaction/txHash.go b/btcTransaction/txHash.go
index 49fd590..0eef45d 100644
--- a/btcTransaction/txHash.go
+++ b/btcTransaction/txHash.go
@@ -166,7 +166,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/btcTransaction/txIn.go b/btcTransaction/txIn.go
index ded31f8..348d848 100644
--- a/btcTransaction/txIn.go
+++ b/btcTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, compactSize(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index 02a7eec..e96217f 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -57,7 +57,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, compactSize(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -66,7 +66,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, compactSize(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -125,13 +125,13 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	if index+1 > limit {
 		return nil, errors.New("Invalid transaction data length!")
 	}
-	numOfVins := txBytes[index]
-	index++
+	numOfVins, used := readCompactSize(txBytes[index:])
+	index += used
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -225,13 +225,13 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		return nil, errors.New("Invalid transaction data length!")
 	}
 
-	numOfVouts := txBytes[index]
-	index++
+	numOfVouts, used := readCompactSize(txBytes[index:])
+	index += used
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -260,7 +260,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
diff --git a/btcTransaction/txUtils.go b/btcTransaction/txUtils.go
index 51ade1f..756164d 100644
--- a/btcTransaction/txUtils.go
+++ b/btcTransaction/txUtils.go
@@ -78,3 +78,25 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+// compactSize encodes a count or length the way the network does
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+// readCompactSize reads a count or length of at most 0xFFFF, and how many bytes it takes (0 if there is none)
+func readCompactSize(data []byte) (int, int) {
+	if len(data) >= 1 && data[0] < 0xFD {
+		return int(data[0]), 1
+	}
+	if len(data) >= 3 && data[0] == 0xFD {
+		return int(littleEndianBytesToUint16(data[1:3])), 3
+	}
+	return 0, 0
+}
diff --git a/cxcTransaction/txHash.go b/cxcTransaction/txHash.go
index 07e4b64..4a01234 100644
--- a/cxcTransaction/txHash.go
+++ b/cxcTransaction/txHash.go
@@ -165,7 +165,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/cxcTransaction/txIn.go b/cxcTransaction/txIn.go
index da2bdb4..8e4ce6a 100644
--- a/cxcTransaction/txIn.go
+++ b/cxcTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, compactSize(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index a4deb0d..9b972b2 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -88,7 +88,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, compactSize(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -97,7 +97,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, compactSize(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -156,13 +156,13 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	if index+1 > limit {
 		return nil, errors.New("Invalid transaction data length!")
 	}
-	numOfVins := txBytes[index]
-	index++
+	numOfVins, used := readCompactSize(txBytes[index:])
+	index += used
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -256,13 +256,13 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		return nil, errors.New("Invalid transaction data length!")
 	}
 
-	numOfVouts := txBytes[index]
-	index++
+	numOfVouts, used := readCompactSize(txBytes[index:])
+	index += used
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -291,7 +291,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
diff --git a/cxcTransaction/txUtils.go b/cxcTransaction/txUtils.go
index 176ba4e..1c1e284 100644
--- a/cxcTransaction/txUtils.go
+++ b/cxcTransaction/txUtils.go
@@ -78,3 +78,25 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+// compactSize encodes a count or length the way the network does
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+// readCompactSize reads a count or length of at most 0xFFFF, and how many bytes it takes (0 if there is none)
+func readCompactSize(data []byte) (int, int) {
+	if len(data) >= 1 && data[0] < 0xFD {
+		return int(data[0]), 1
+	}
+	if len(data) >= 3 && data[0] == 0xFD {
+		return int(littleEndianBytesToUint16(data[1:3])), 3
+	}
+	return 0, 0
+}
diff --git a/hcTransaction/txHash.go b/hcTransaction/txHash.go
index 5e3afb4..1910841 100644
--- a/hcTransaction/txHash.go
+++ b/hcTransaction/txHash.go
@@ -166,7 +166,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/hcTransaction/txIn.go b/hcTransaction/txIn.go
index 7dba474..c93f7ba 100644
--- a/hcTransaction/txIn.go
+++ b/hcTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, compactSize(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index 936ed2e..4d16776 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -57,7 +57,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, compactSize(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -66,7 +66,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, compactSize(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -125,13 +125,13 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	if index+1 > limit {
 		return nil, errors.New("Invalid transaction data length!")
 	}
-	numOfVins := txBytes[index]
-	index++
+	numOfVins, used := readCompactSize(txBytes[index:])
+	index += used
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -225,13 +225,13 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		return nil, errors.New("Invalid transaction data length!")
 	}
 
-	numOfVouts := txBytes[index]
-	index++
+	numOfVouts, used := readCompactSize(txBytes[index:])
+	index += used
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -260,7 +260,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
diff --git a/hcTransaction/txUtils.go b/hcTransaction/txUtils.go
index 5c10266..9a6841f 100644
--- a/hcTransaction/txUtils.go
+++ b/hcTransaction/txUtils.go
@@ -78,3 +78,25 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+// compactSize encodes a count or length the way the network does
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+// readCompactSize reads a count or length of at most 0xFFFF, and how many bytes it takes (0 if there is none)
+func readCompactSize(data []byte) (int, int) {
+	if len(data) >= 1 && data[0] < 0xFD {
+		return int(data[0]), 1
+	}
+	if len(data) >= 3 && data[0] == 0xFD {
+		return int(littleEndianBytesToUint16(data[1:3])), 3
+	}
+	return 0, 0
+}
diff --git a/omniTransaction/txHash.go b/omniTransaction/txHash.go
index d66b9f2..79df4cf 100644
--- a/omniTransaction/txHash.go
+++ b/omniTransaction/txHash.go
@@ -165,7 +165,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/omniTransaction/txIn.go b/omniTransaction/txIn.go
index 3354027..1211dc9 100644
--- a/omniTransaction/txIn.go
+++ b/omniTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, compactSize(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index 53db5eb..f1c0468 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -57,7 +57,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, compactSize(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -66,7 +66,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, compactSize(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -125,13 +125,13 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	if index+1 > limit {
 		return nil, errors.New("Invalid transaction data length!")
 	}
-	numOfVins := txBytes[index]
-	index++
+	numOfVins, used := readCompactSize(txBytes[index:])
+	index += used
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -225,13 +225,13 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		return nil, errors.New("Invalid transaction data length!")
 	}
 
-	numOfVouts := txBytes[index]
-	index++
+	numOfVouts, used := readCompactSize(txBytes[index:])
+	index += used
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -260,7 +260,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
diff --git a/omniTransaction/txUtils.go b/omniTransaction/txUtils.go
index 2cfe632..bcefa4d 100644
--- a/omniTransaction/txUtils.go
+++ b/omniTransaction/txUtils.go
@@ -108,3 +108,25 @@ func uint64ToBigEndianBytes(data uint64) []byte {
 func bigEndianBytesToUint64(data []byte) uint64 {
 	return binary.BigEndian.Uint64(data)
 }
+
+// compactSize encodes a count or length the way the network does
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+// readCompactSize reads a count or length of at most 0xFFFF, and how many bytes it takes (0 if there is none)
+func readCompactSize(data []byte) (int, int) {
+	if len(data) >= 1 && data[0] < 0xFD {
+		return int(data[0]), 1
+	}
+	if len(data) >= 3 && data[0] == 0xFD {
+		return int(littleEndianBytesToUint16(data[1:3])), 3
+	}
+	return 0, 0
+}
diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index 073b66c..6825d60 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -166,7 +166,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/zencashTransaction/txIn.go b/zencashTransaction/txIn.go
index 6805de4..6207d9f 100644
--- a/zencashTransaction/txIn.go
+++ b/zencashTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, compactSize(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index bee6752..bb14d26 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -57,7 +57,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, compactSize(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -66,7 +66,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, compactSize(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -125,13 +125,13 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	if index+1 > limit {
 		return nil, errors.New("Invalid transaction data length!")
 	}
-	numOfVins := txBytes[index]
-	index++
+	numOfVins, used := readCompactSize(txBytes[index:])
+	index += used
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -225,13 +225,13 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		return nil, errors.New("Invalid transaction data length!")
 	}
 
-	numOfVouts := txBytes[index]
-	index++
+	numOfVouts, used := readCompactSize(txBytes[index:])
+	index += used
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -260,7 +260,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
diff --git a/zencashTransaction/txUtils.go b/zencashTransaction/txUtils.go
index 6ce82e7..8af107a 100644
--- a/zencashTransaction/txUtils.go
+++ b/zencashTransaction/txUtils.go
@@ -78,3 +78,25 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+// compactSize encodes a count or length the way the network does
+func compactSize(n int) []byte {
+	if n < 0xFD {
+		return []byte{byte(n)}
+	}
+	if n <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(n))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+// readCompactSize reads a count or length of at most 0xFFFF, and how many bytes it takes (0 if there is none)
+func readCompactSize(data []byte) (int, int) {
+	if len(data) >= 1 && data[0] < 0xFD {
+		return int(data[0]), 1
+	}
+	if len(data) >= 3 && data[0] == 0xFD {
+		return int(littleEndianBytesToUint16(data[1:3])), 3
+	}
+	return 0, 0
+}
-- 
2.43.0


From bb5c92b965b316e49c55fbd406841bea89fa8058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:28 +0000
Subject: [PATCH 17/76] fix: non-segwit multisig digests of bitcoin-cash and
 bitcoin-sv lacked replay protection, so the network rejects the signatures

---
 bitcoincashTransaction/txHash.go | 16 +++-------------
 bitcoinsvTransaction/txHash.go   | 16 +++-------------
 2 files changed, 6 insertions(+), 26 deletions(-)

diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index 1365c77..a28055c 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -215,20 +215,10 @@ func (t Transaction) getBytesForSig(lockBytes, redeemBytes []byte, inType, sigTy
 		}
 	} else if inType == TypeMultiSig {
 		if sigType == SigHashAll {
-			if SegwitON {
-				sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
-				if err != nil {
-					return nil, err
-				}
-			} else {
-				t.Vins[index].scriptPub = redeemBytes
-				sigBytes, err = t.encodeToBytes(SegwitON)
-
-				if err != nil {
-					return nil, err
-				}
+			sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
+			if err != nil {
+				return nil, err
 			}
-
 		} else {
 			// TODO
 			return nil, errors.New("The sigType inputed is not supported yet!")
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index 3c6e74e..108371b 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -216,20 +216,10 @@ func (t Transaction) getBytesForSig(lockBytes, redeemBytes []byte, inType, sigTy
 		}
 	} else if inType == TypeMultiSig {
 		if sigType == SigHashAll {
-			if SegwitON {
-				sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
-				if err != nil {
-					return nil, err
-				}
-			} else {
-				t.Vins[index].scriptPub = redeemBytes
-				sigBytes, err = t.encodeToBytes(SegwitON)
-
-				if err != nil {
-					return nil, err
-				}
+			sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
+			if err != nil {
+				return nil, err
 			}
-
 		} else {
 			// TODO
 			return nil, errors.New("The sigType inputed is not supported yet!")
-- 
2.43.0


From 1c4fbb604a7703f140b605dbcb656f234e845107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:28 +0000
Subject: [PATCH 18/76] fix: nested segwit multisig inputs got a hard-coded
 witness item count and truncated redeem length

---
 bitcoincashTransaction/txHash.go     |  2 +-
 bitcoincashTransaction/txIn.go       |  7 ++++++-
 bitcoincashTransaction/txMultiSig.go |  5 +++--
 bitcoincashTransaction/txStruct.go   | 15 +++++++++------
 bitcoinsvTransaction/txHash.go       |  2 +-
 bitcoinsvTransaction/txIn.go         |  7 ++++++-
 bitcoinsvTransaction/txMultiSig.go   |  5 +++--
 bitcoinsvTransaction/txStruct.go     | 15 +++++++++------
 btcTransaction/txHash.go             |  2 +-
 btcTransaction/txIn.go               |  7 ++++++-
 btcTransaction/txMultiSig.go         |  5 +++--
 btcTransaction/txStruct.go           | 15 +++++++++------
 cxcTransaction/txHash.go             |  2 +-
 cxcTransaction/txIn.go               |  7 ++++++-
 cxcTransaction/txMultiSig.go         |  5 +++--
 cxcTransaction/txStruct.go           | 15 +++++++++------
 hcTransaction/txHash.go              |  2 +-
 hcTransaction/txIn.go                |  7 ++++++-
 hcTransaction/txMultiSig.go          |  5 +++--
 hcTransaction/txStruct.go            | 15 +++++++++------
 omniTransaction/txHash.go            |  2 +-
 omniTransaction/txIn.go              |  7 ++++++-
 omniTransaction/txMultiSig.go        |  5 +++--
 omniTransaction/txStruct.go          | 15 +++++++++------
 zencashTransaction/txHash.go         |  2 +-
 zencashTransaction/txIn.go           |  7 ++++++-
 zencashTransaction/txMultiSig.go     |  5 +++--
 zencashTransaction/txStruct.go       | 15 +++++++++------
 28 files changed, 133 insertions(+), 70 deletions(-)

diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index a28055c..72e191e 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -312,7 +312,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(compactSize(redeemLen), ret...)
 	}
 
 	count = 0
diff --git a/bitcoincashTransaction/txIn.go b/bitcoincashTransaction/txIn.go
index 1ad7e20..4cace7e 100644
--- a/bitcoincashTransaction/txIn.go
+++ b/bitcoincashTransaction/txIn.go
@@ -115,7 +115,12 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
+		// the empty element, the signatures and the redeem script
+		items := byte(2)
+		for index := 1; index+1 < len(in.scriptMulti) && in.scriptMulti[index+1] == 0x30; index += int(in.scriptMulti[index]) + 1 {
+			items++
+		}
+		ret = append(ret, items)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index 0d18366..5967e51 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -181,8 +181,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
 		index += 2
 	} else {
-		redeemLen = int(script[index])
-		index++
+		used := 0
+		redeemLen, used = readCompactSize(script[index:])
+		index += used
 	}
 
 	if index+1 > limit {
diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index 31147b1..6216dc0 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -309,9 +309,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				items := int(txBytes[index])
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -352,6 +350,11 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
 					index += int(sigLen)
+					items--
+				}
+				// the empty element and the redeem script remain
+				if items != 2 {
+					return nil, errors.New("Invalid transaction data!")
 				}
 				if index+1 > limit {
 					return nil, errors.New("Invalid transaction data!")
@@ -382,9 +385,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						index++
 					}
 				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					redeemLen, used = readCompactSize(txBytes[index:])
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+used]...)
+					index += used
 				}
 
 				if index+int(redeemLen) > limit {
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index 108371b..97b95ab 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -313,7 +313,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(compactSize(redeemLen), ret...)
 	}
 
 	count = 0
diff --git a/bitcoinsvTransaction/txIn.go b/bitcoinsvTransaction/txIn.go
index 1623335..8b98535 100644
--- a/bitcoinsvTransaction/txIn.go
+++ b/bitcoinsvTransaction/txIn.go
@@ -115,7 +115,12 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
+		// the empty element, the signatures and the redeem script
+		items := byte(2)
+		for index := 1; index+1 < len(in.scriptMulti) && in.scriptMulti[index+1] == 0x30; index += int(in.scriptMulti[index]) + 1 {
+			items++
+		}
+		ret = append(ret, items)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index 1de66e9..4c96299 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -181,8 +181,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
 		index += 2
 	} else {
-		redeemLen = int(script[index])
-		index++
+		used := 0
+		redeemLen, used = readCompactSize(script[index:])
+		index += used
 	}
 
 	if index+1 > limit {
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index 2a3c43d..29308d5 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -309,9 +309,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				items := int(txBytes[index])
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -352,6 +350,11 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
 					index += int(sigLen)
+					items--
+				}
+				// the empty element and the redeem script remain
+				if items != 2 {
+					return nil, errors.New("Invalid transaction data!")
 				}
 				if index+1 > limit {
 					return nil, errors.New("Invalid transaction data!")
@@ -382,9 +385,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						index++
 					}
 				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					redeemLen, used = readCompactSize(txBytes[index:])
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+used]...)
+					index += used
 				}
 
 				if index+int(redeemLen) > limit {
diff --git a/btcTransaction/txHash.go b/btcTransaction/txHash.go
index 0eef45d..43762df 100644
--- a/btcTransaction/txHash.go
+++ b/btcTransaction/txHash.go
@@ -326,7 +326,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(compactSize(redeemLen), ret...)
 	}
 
 	count = 0
diff --git a/btcTransaction/txIn.go b/btcTransaction/txIn.go
index 348d848..98ad253 100644
--- a/btcTransaction/txIn.go
+++ b/btcTransaction/txIn.go
@@ -115,7 +115,12 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
+		// the empty element, the signatures and the redeem script
+		items := byte(2)
+		for index := 1; index+1 < len(in.scriptMulti) && in.scriptMulti[index+1] == 0x30; index += int(in.scriptMulti[index]) + 1 {
+			items++
+		}
+		ret = append(ret, items)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index 32d8039..0de6f5e 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -181,8 +181,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
 		index += 2
 	} else {
-		redeemLen = int(script[index])
-		index++
+		used := 0
+		redeemLen, used = readCompactSize(script[index:])
+		index += used
 	}
 
 	if index+1 > limit {
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index e96217f..0a48d73 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -288,9 +288,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				items := int(txBytes[index])
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -331,6 +329,11 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
 					index += int(sigLen)
+					items--
+				}
+				// the empty element and the redeem script remain
+				if items != 2 {
+					return nil, errors.New("Invalid transaction data!")
 				}
 				if index+1 > limit {
 					return nil, errors.New("Invalid transaction data!")
@@ -361,9 +364,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						index++
 					}
 				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					redeemLen, used = readCompactSize(txBytes[index:])
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+used]...)
+					index += used
 				}
 
 				if index+int(redeemLen) > limit {
diff --git a/cxcTransaction/txHash.go b/cxcTransaction/txHash.go
index 4a01234..2a92b11 100644
--- a/cxcTransaction/txHash.go
+++ b/cxcTransaction/txHash.go
@@ -325,7 +325,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(compactSize(redeemLen), ret...)
 	}
 
 	count = 0
diff --git a/cxcTransaction/txIn.go b/cxcTransaction/txIn.go
index 8e4ce6a..274ab53 100644
--- a/cxcTransaction/txIn.go
+++ b/cxcTransaction/txIn.go
@@ -115,7 +115,12 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
+		// the empty element, the signatures and the redeem script
+		items := byte(2)
+		for index := 1; index+1 < len(in.scriptMulti) && in.scriptMulti[index+1] == 0x30; index += int(in.scriptMulti[index]) + 1 {
+			items++
+		}
+		ret = append(ret, items)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index 74f9930..4ddb1c8 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -181,8 +181,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
 		index += 2
 	} else {
-		redeemLen = int(script[index])
-		index++
+		used := 0
+		redeemLen, used = readCompactSize(script[index:])
+		index += used
 	}
 
 	if index+1 > limit {
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index 9b972b2..115ddfb 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -319,9 +319,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				items := int(txBytes[index])
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -362,6 +360,11 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
 					index += int(sigLen)
+					items--
+				}
+				// the empty element and the redeem script remain
+				if items != 2 {
+					return nil, errors.New("Invalid transaction data!")
 				}
 				if index+1 > limit {
 					return nil, errors.New("Invalid transaction data!")
@@ -392,9 +395,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						index++
 					}
 				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					redeemLen, used = readCompactSize(txBytes[index:])
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+used]...)
+					index += used
 				}
 
 				if index+int(redeemLen) > limit {
diff --git a/hcTransaction/txHash.go b/hcTransaction/txHash.go
index 1910841..97d2828 100644
--- a/hcTransaction/txHash.go
+++ b/hcTransaction/txHash.go
@@ -326,7 +326,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(compactSize(redeemLen), ret...)
 	}
 
 	count = 0
diff --git a/hcTransaction/txIn.go b/hcTransaction/txIn.go
index c93f7ba..3edb517 100644
--- a/hcTransaction/txIn.go
+++ b/hcTransaction/txIn.go
@@ -115,7 +115,12 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
+		// the empty element, the signatures and the redeem script
+		items := byte(2)
+		for index := 1; index+1 < len(in.scriptMulti) && in.scriptMulti[index+1] == 0x30; index += int(in.scriptMulti[index]) + 1 {
+			items++
+		}
+		ret = append(ret, items)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index 7942847..6bcf4fe 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -181,8 +181,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
 		index += 2
 	} else {
-		redeemLen = int(script[index])
-		index++
+		used := 0
+		redeemLen, used = readCompactSize(script[index:])
+		index += used
 	}
 
 	if index+1 > limit {
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index 4d16776..a6e921a 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -288,9 +288,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				items := int(txBytes[index])
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -331,6 +329,11 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
 					index += int(sigLen)
+					items--
+				}
+				// the empty element and the redeem script remain
+				if items != 2 {
+					return nil, errors.New("Invalid transaction data!")
 				}
 				if index+1 > limit {
 					return nil, errors.New("Invalid transaction data!")
@@ -361,9 +364,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						index++
 					}
 				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					redeemLen, used = readCompactSize(txBytes[index:])
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+used]...)
+					index += used
 				}
 
 				if index+int(redeemLen) > limit {
diff --git a/omniTransaction/txHash.go b/omniTransaction/txHash.go
index 79df4cf..3fba31e 100644
--- a/omniTransaction/txHash.go
+++ b/omniTransaction/txHash.go
@@ -325,7 +325,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(compactSize(redeemLen), ret...)
 	}
 
 	count = 0
diff --git a/omniTransaction/txIn.go b/omniTransaction/txIn.go
index 1211dc9..fc9cdec 100644
--- a/omniTransaction/txIn.go
+++ b/omniTransaction/txIn.go
@@ -115,7 +115,12 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
+		// the empty element, the signatures and the redeem script
+		items := byte(2)
+		for index := 1; index+1 < len(in.scriptMulti) && in.scriptMulti[index+1] == 0x30; index += int(in.scriptMulti[index]) + 1 {
+			items++
+		}
+		ret = append(ret, items)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index 78c8937..cea9a2b 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -180,8 +180,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
 		index += 2
 	} else {
-		redeemLen = int(script[index])
-		index++
+		used := 0
+		redeemLen, used = readCompactSize(script[index:])
+		index += used
 	}
 
 	if index+1 > limit {
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index f1c0468..f090cfb 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -288,9 +288,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				items := int(txBytes[index])
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -331,6 +329,11 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
 					index += int(sigLen)
+					items--
+				}
+				// the empty element and the redeem script remain
+				if items != 2 {
+					return nil, errors.New("Invalid transaction data!")
 				}
 				if index+1 > limit {
 					return nil, errors.New("Invalid transaction data!")
@@ -361,9 +364,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						index++
 					}
 				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					redeemLen, used = readCompactSize(txBytes[index:])
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+used]...)
+					index += used
 				}
 
 				if index+int(redeemLen) > limit {
diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index 6825d60..7c1651b 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -330,7 +330,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(compactSize(redeemLen), ret...)
 	}
 
 	count = 0
diff --git a/zencashTransaction/txIn.go b/zencashTransaction/txIn.go
index 6207d9f..6e6f7d8 100644
--- a/zencashTransaction/txIn.go
+++ b/zencashTransaction/txIn.go
@@ -115,7 +115,12 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
+		// the empty element, the signatures and the redeem script
+		items := byte(2)
+		for index := 1; index+1 < len(in.scriptMulti) && in.scriptMulti[index+1] == 0x30; index += int(in.scriptMulti[index]) + 1 {
+			items++
+		}
+		ret = append(ret, items)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index bc53d90..aee9f10 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -181,8 +181,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
 		index += 2
 	} else {
-		redeemLen = int(script[index])
-		index++
+		used := 0
+		redeemLen, used = readCompactSize(script[index:])
+		index += used
 	}
 
 	if index+1 > limit {
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index bb14d26..d9b115e 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -288,9 +288,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				items := int(txBytes[index])
 				index++
 				if !SegwitON {
 					scriptLen := int(txBytes[index])
@@ -331,6 +329,11 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					}
 					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
 					index += int(sigLen)
+					items--
+				}
+				// the empty element and the redeem script remain
+				if items != 2 {
+					return nil, errors.New("Invalid transaction data!")
 				}
 				if index+1 > limit {
 					return nil, errors.New("Invalid transaction data!")
@@ -361,9 +364,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 						index++
 					}
 				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					redeemLen, used = readCompactSize(txBytes[index:])
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+used]...)
+					index += used
 				}
 
 				if index+int(redeemLen) > limit {
-- 
2.43.0


From a68c3774c5153bc171c325d98b76dbca01485176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:46 +0000
Subject: [PATCH 19/76] fix: cashaddr decoding verifies the checksum for every
 prefix and undoes the version byte

---
 addressEncoder/base32PolyMod/base32PolyMod.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/addressEncoder/base32PolyMod/base32PolyMod.go b/addressEncoder/base32PolyMod/base32PolyMod.go
index ffa3e92..bf5280c 100644
--- a/addressEncoder/base32PolyMod/base32PolyMod.go
+++ b/addressEncoder/base32PolyMod/base32PolyMod.go
@@ -210,15 +210,21 @@ func Decode(address, alphabet string) ([]byte, error) {
 		value[i] = charRev[c]
 	}
 
-	if prefixStr == "bitcoincash" {
-		if !verifyChecksum(bitcoincashExpandPrefix, value) {
-			return nil, ErrorInvalidAddress
-		}
+	if strings.ToLower(prefixStr) != "bitcoincash" || !verifyChecksum(bitcoincashExpandPrefix, value) {
+		return nil, ErrorInvalidAddress
 	}
 
+	if len(value) < 10 {
+		return nil, ErrorInvalidAddress
+	}
 	tmp := make([]int8, len(value)-8)
 	copy(tmp, value)
 
+	padding := uint(len(tmp) * 5 % 8)
+	if padding > 4 || tmp[len(tmp)-1]&(1<<padding-1) != 0 {
+		return nil, ErrorInvalidAddress
+	}
+
 	ret := unecxtendPayload(tmp)
 
 	bytePayload := make([]byte, len(ret))
@@ -226,5 +232,10 @@ func Decode(address, alphabet string) ([]byte, error) {
 	for i := 0; i < len(ret); i++ {
 		bytePayload[i] = byte(ret[i])
 	}
+	// version byte: reserved bit, 4 bits of type, 3 bits of hash size (0: 160 bits)
+	if bytePayload[0]&0x87 != 0 {
+		return nil, ErrorInvalidAddress
+	}
+	bytePayload[0] >>= 3
 	return bytePayload, nil
 }
-- 
2.43.0


From d1101904ce35611f6258dd677c843ccedebf90e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:46 +0000
Subject: [PATCH 20/76] fix: bech32 address decoding checks the human readable
 part, witness version and padding

---
 addressEncoder/addressEncoder.go |  2 +-
 addressEncoder/bech32/bech32.go  | 60 ++++++++++++++++++++++++++++----
 2 files changed, 54 insertions(+), 8 deletions(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 8f279da..1a4f01f 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -254,7 +254,7 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 	}
 
 	if addresstype.EncodeType == "bech32" {
-		ret, err := bech32.Decode(address, addresstype.Alphabet)
+		ret, err := bech32.DecodePayload(addresstype.ChecksumType, address, addresstype.Prefix)
 		if err != nil {
 			return nil, ErrorInvalidAddress
 		}
diff --git a/addressEncoder/bech32/bech32.go b/addressEncoder/bech32/bech32.go
index cb0bcd6..6a0a0bf 100644
--- a/addressEncoder/bech32/bech32.go
+++ b/addressEncoder/bech32/bech32.go
@@ -350,7 +350,8 @@ func Encode(prefix, alphabet string, payload []byte, payloadPrefix []byte) strin
 	return ret
 }
 
-func Decode(address, alphabet string) ([]byte, error) {
+// decodeDigits checks a bech32 string and returns its human readable part and its 5-bit payload digits
+func decodeDigits(address string) (string, []int8, error) {
 	lower := false
 	upper := false
 	hasNumber := false
@@ -371,16 +372,16 @@ func Decode(address, alphabet string) ([]byte, error) {
 		}
 		if c == '1' {
 			if hasNumber || i == 0 || prefixSize != 0 {
-				return nil, ErrorInvalidAddress
+				return "", nil, ErrorInvalidAddress
 			}
 			prefixSize = i
 			continue
 		}
-		return nil, ErrorInvalidAddress
+		return "", nil, ErrorInvalidAddress
 	}
 
 	if upper && lower {
-		return nil, ErrorInvalidAddress
+		return "", nil, ErrorInvalidAddress
 	}
 
 	prefixStr := strings.Split(address, "1")[0]
@@ -390,18 +391,63 @@ func Decode(address, alphabet string) ([]byte, error) {
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
 		if c > 127 || CHARSET_REV[c] == -1 {
-			return nil, ErrorInvalidAddress
+			return "", nil, ErrorInvalidAddress
 		}
 		value[i] = CHARSET_REV[c]
 	}
 
-	if !verifyChecksum(prefixStr, value) {
-		return nil, ErrorInvalidAddress
+	if len(value) < 6 || !verifyChecksum(prefixStr, value) {
+		return "", nil, ErrorInvalidAddress
 	}
 
 	tmp := make([]int8, len(value)-6)
 	copy(tmp, value)
 
+	return prefixStr, tmp, nil
+}
+
+// DecodePayload decodes an address with the given human readable part, whose
+// payload starts with the digits of payloadPrefix (the witness version)
+func DecodePayload(prefix, address string, payloadPrefix []byte) ([]byte, error) {
+	prefixStr, digits, err := decodeDigits(address)
+	if err != nil {
+		return nil, err
+	}
+	if prefixStr != prefix || len(digits) < len(payloadPrefix) {
+		return nil, ErrorInvalidAddress
+	}
+	for i, data := range payloadPrefix {
+		if digits[i] != int8(data) {
+			return nil, ErrorInvalidAddress
+		}
+	}
+	ret := []byte{}
+	acc := uint32(0)
+	accBits := uint(0)
+	for _, d := range digits[len(payloadPrefix):] {
+		acc = acc<<5 | uint32(d)
+		accBits += 5
+		if accBits >= 8 {
+			accBits -= 8
+			ret = append(ret, byte(acc>>accBits))
+			acc &= 1<<accBits - 1
+		}
+	}
+	if accBits > 4 || acc != 0 {
+		return nil, ErrorInvalidAddress
+	}
+	return ret, nil
+}
+
+func Decode(address, alphabet string) ([]byte, error) {
+	_, tmp, err := decodeDigits(address)
+	if err != nil {
+		return nil, err
+	}
+	if len(tmp) < 2 {
+		return nil, ErrorInvalidAddress
+	}
+
 	ret := unecxtendPayload(tmp)
 
 	bytePayload := make([]byte, len(ret))
-- 
2.43.0


From 62e6e969daa6aea6b8cca3a899dbbfe1c87ea8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:46 +0000
Subject: [PATCH 21/76] fix: bech32m address decoding reports a wrong prefix,
 checksum type or length

---
 addressEncoder/addressEncoder.go  | 9 ++++++++-
 addressEncoder/bech32m/bech32m.go | 5 ++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 1a4f01f..f723ba5 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -250,7 +250,14 @@ func AddressEncode(hash []byte, addresstype AddressType) string {
 func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 
 	if addresstype.EncodeType == "bech32m" {
-		return bech32m.Bech32mDecode(address, addresstype.ChecksumType, addresstype.Alphabet)
+		ret, err := bech32m.Bech32mDecode(address, addresstype.ChecksumType, addresstype.Alphabet)
+		if err != nil {
+			return nil, ErrorInvalidAddress
+		}
+		if len(ret) != addresstype.HashLen {
+			return nil, ErrorInvalidHashLength
+		}
+		return ret, nil
 	}
 
 	if addresstype.EncodeType == "bech32" {
diff --git a/addressEncoder/bech32m/bech32m.go b/addressEncoder/bech32m/bech32m.go
index e4d2d83..e7d3669 100644
--- a/addressEncoder/bech32m/bech32m.go
+++ b/addressEncoder/bech32m/bech32m.go
@@ -171,9 +171,12 @@ func Bech32mEncode(prefix string, data []byte, charset string) (string, error) {
 
 func Bech32mDecode(address, prefix string, charset string) ([]byte, error) {
 	prechk, data, spec, err := Decode(address, charset)
-	if err != nil || prechk != prefix || spec != Bech32m {
+	if err != nil {
 		return nil, err
 	}
+	if prechk != prefix || spec != Bech32m {
+		return nil, fmt.Errorf("Invalid prefix or checksum type")
+	}
 
 	hash, err := Convertbits(data, 5, 8, false)
 	if err != nil {
-- 
2.43.0


From 96920cfe0ef3ca82e06ab8c3d92278ac55eb92a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:46 +0000
Subject: [PATCH 22/76] fix: addressEncoder rejects short addresses instead of
 panicking

---
 addressEncoder/addressCheck.go   | 7 +++++++
 addressEncoder/addressEncoder.go | 8 +++++++-
 addressEncoder/eip55/eip55.go    | 2 +-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/addressEncoder/addressCheck.go b/addressEncoder/addressCheck.go
index e660d61..6274c8a 100644
--- a/addressEncoder/addressCheck.go
+++ b/addressEncoder/addressCheck.go
@@ -19,6 +19,13 @@ notice:
 func AddressCheck(addr string, symbol string) (bool, error) {
 	var err error
 	switch symbol {
+	case "BTC", "ZEC", "LTC", "BCH", "XTZ", "HC", "QTUM", "DCRD", "NAS", "TRX", "ICX", "VSYS":
+		// no address of these chains is this short
+		if len(addr) < 12 {
+			return false, ErrorInvalidAddress
+		}
+	}
+	switch symbol {
 	case "BTC":
 		if addr[0] == '1' {
 			_, err = AddressDecode(addr, BTC_mainnetAddressP2PKH)
diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index f723ba5..4255b5a 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -56,6 +56,9 @@ func verifyChecksum(data []byte, chkType string) bool {
 		return false
 	}
 	checksum := calcChecksum(data[:len(data)-4], chkType)
+	if len(checksum) < 4 {
+		return false
+	}
 	for i := 0; i < 4; i++ {
 		if checksum[i] != data[len(data)-4+i] {
 			return false
@@ -77,6 +80,9 @@ func catData(data1 []byte, data2 []byte) []byte {
 }
 
 func recoverData(data, prefix, suffix []byte) ([]byte, error) {
+	if len(data) < len(prefix)+len(suffix) {
+		return nil, ErrorInvalidAddress
+	}
 	for i := 0; i < len(prefix); i++ {
 		if data[i] != prefix[i] {
 			return nil, ErrorInvalidAddress
@@ -291,7 +297,7 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 		return ret, nil
 	}
 	if addresstype.EncodeType == "ICX" {
-		if address[0] != 'h' || address[1] != 'x' {
+		if !strings.HasPrefix(address, "hx") {
 			return nil, ErrorInvalidAddress
 		} else {
 			if len(address)-2 != 40 {
diff --git a/addressEncoder/eip55/eip55.go b/addressEncoder/eip55/eip55.go
index 8727322..eed4331 100644
--- a/addressEncoder/eip55/eip55.go
+++ b/addressEncoder/eip55/eip55.go
@@ -92,7 +92,7 @@ func Eip55_decode(encode_addr string)([]byte,error){
 		return nil,ErrorInvalidAddress
 	}
 	*/
-	if encode_addr[0:2] == "0x" {
+	if len(encode_addr) >= 2 && encode_addr[0:2] == "0x" {
 		encode_addr = encode_addr[2:]
 	}
 	decode_addr,err :=hex.DecodeString(encode_addr)
-- 
2.43.0


From ffe95772db0a4051c96622a51a6a0642fd6e0632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:46 +0000
Subject: [PATCH 23/76] fix: address encoding no longer appends into the
 caller's buffers

---
 addressEncoder/addressEncoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 4255b5a..daa0b56 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -76,7 +76,7 @@ func catData(data1 []byte, data2 []byte) []byte {
 	if data2 == nil {
 		return data1
 	}
-	return append(data1, data2...)
+	return append(append([]byte{}, data1...), data2...)
 }
 
 func recoverData(data, prefix, suffix []byte) ([]byte, error) {
@@ -206,7 +206,7 @@ func AddressEncode(hash []byte, addresstype AddressType) string {
 			}
 		}
 		//addPrefixHash = Prefix||hash=prxfix || public sepend key||public view key(65-byte)
-		addPrefixHash := append(addresstype.Prefix, hash...)
+		addPrefixHash := catData(addresstype.Prefix, hash)
 		//checksum is the first four bytes of keccak256(addPrefixHash)
 		checksum := owcrypt.Hash(addPrefixHash, 32, owcrypt.HASH_ALG_KECCAK256)[:4]
 		//Suffix checksum addPrefixHash(69-byte)
-- 
2.43.0


From 61f8d1ac68d61610d4e52c2f40bece3bc967cdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:47 +0000
Subject: [PATCH 24/76] fix: EOS and aeternity key decoding checks prefix and
 key length

---
 addressEncoder/aeternity.go | 6 ++++++
 addressEncoder/eos.go       | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/addressEncoder/aeternity.go b/addressEncoder/aeternity.go
index 3149d57..64d189d 100644
--- a/addressEncoder/aeternity.go
+++ b/addressEncoder/aeternity.go
@@ -13,6 +13,8 @@ func decodeAE(pubKey string, addresstype AddressType) ([]byte, error) {
 	var pubKeyMaterial string
 	if strings.HasPrefix(pubKey, AEPrefixAccountPubkey) {
 		pubKeyMaterial = pubKey[len(AEPrefixAccountPubkey):]
+	} else {
+		return nil, ErrorInvalidAddress
 	}
 
 	ret, err := Base58Decode(pubKeyMaterial, NewBase58Alphabet(addresstype.Alphabet))
@@ -23,6 +25,10 @@ func decodeAE(pubKey string, addresstype AddressType) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if len(ret)-4 != addresstype.HashLen {
+		return nil, ErrorInvalidHashLength
+	}
+
 	return ret[:len(ret)-4], nil
 }
 
diff --git a/addressEncoder/eos.go b/addressEncoder/eos.go
index 8214fb7..7800dbd 100644
--- a/addressEncoder/eos.go
+++ b/addressEncoder/eos.go
@@ -33,6 +33,10 @@ func decodeEOS(pubKey string, addresstype AddressType) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if len(ret)-4 != addresstype.HashLen {
+		return nil, ErrorInvalidHashLength
+	}
+
 	return ret[:len(ret)-4], nil
 }
 
-- 
2.43.0


From 7063484ec04462fb092449274ff368c709fe4228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:47 +0000
Subject: [PATCH 25/76] fix: XMR address decoding rejects base58 blocks that
 overflow

---
 addressEncoder/addressEncoder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index daa0b56..16b1295 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -335,6 +335,11 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 			if len(blockDecode) < 8 {
 				return nil, fmt.Errorf("decode result length error,block:%d", i+1)
 			} else {
+				for _, b := range blockDecode[:len(blockDecode)-8] {
+					if b != 0 {
+						return nil, ErrorInvalidAddress
+					}
+				}
 				decodeRet = append(decodeRet, blockDecode[len(blockDecode)-8:]...)
 			}
 		}
@@ -346,6 +351,11 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 		if len(lastBlockDecode) < 5 {
 			return nil, fmt.Errorf("The last block decode result length error!!!")
 		} else {
+			for _, b := range lastBlockDecode[:len(lastBlockDecode)-5] {
+				if b != 0 {
+					return nil, ErrorInvalidAddress
+				}
+			}
 			decodeRet = append(decodeRet, lastBlockDecode[len(lastBlockDecode)-5:]...)
 		}
 		if verifyChecksum(decodeRet, addresstype.ChecksumType) == false {
-- 
2.43.0


From 46a8cb90a85c89dbc25e74083d80103859695178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:47 +0000
Subject: [PATCH 26/76] fix: AddressEncode returns no address for a payload it
 cannot encode

---
 addressEncoder/addressEncoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 16b1295..ec6824e 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -179,6 +179,9 @@ func AddressEncode(hash []byte, addresstype AddressType) string {
 
 	if len(hash) != addresstype.HashLen {
 		hash = calcHash(hash, addresstype.HashType)
+		if len(hash) != addresstype.HashLen {
+			return ""
+		}
 	}
 
 	if addresstype.EncodeType == "base32PolyMod" {
-- 
2.43.0


From 4fa4fc9992cad7ebd199bd035908ae50b6faf5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:47 +0000
Subject: [PATCH 27/76] fix: base64 NewEncoding keeps its alphabet

---
 addressEncoder/base64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/addressEncoder/base64.go b/addressEncoder/base64.go
index e82554f..af4e3fc 100644
--- a/addressEncoder/base64.go
+++ b/addressEncoder/base64.go
@@ -31,7 +31,7 @@ func NewEncoding(encoder string) *Encoding {
 
 	e := new(Encoding)
 	e.padChar = StdPadding
-	copy(e.encode[:], encoder)
+	e.encode = []byte(encoder)
 
 	for i := 0; i < len(e.decodeMap); i++ {
 		e.decodeMap[i] = 0xFF
-- 
2.43.0


From cddf5f3f2b1314067fd5646802a1f114a39de846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:16 +0000
Subject: [PATCH 28/76] fix: EncodeCheck and Base58checkEncode no longer write
 into the caller's prefix buffer

---
 bitcoincashTransaction/base58.go | 2 +-
 bitcoinsvTransaction/base58.go   | 2 +-
 btcTransaction/base58.go         | 2 +-
 cxcTransaction/base58.go         | 2 +-
 elastosTransaction/base58.go     | 2 +-
 fiiiTransaction/base58.go        | 2 +-
 hcTransaction/base58.go          | 2 +-
 hypercashTransaction/base58.go   | 2 +-
 omniTransaction/base58.go        | 2 +-
 owkeychain/owencode.go           | 3 ++-
 vollarTransaction/base58.go      | 2 +-
 waykichainTransaction/base58.go  | 2 +-
 zencashTransaction/base58.go     | 2 +-
 13 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/bitcoincashTransaction/base58.go b/bitcoincashTransaction/base58.go
index b3565bb..9bbbe88 100644
--- a/bitcoincashTransaction/base58.go
+++ b/bitcoincashTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/bitcoinsvTransaction/base58.go b/bitcoinsvTransaction/base58.go
index e562197..8f4d37e 100644
--- a/bitcoinsvTransaction/base58.go
+++ b/bitcoinsvTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/btcTransaction/base58.go b/btcTransaction/base58.go
index 1ff5627..7bacfcf 100644
--- a/btcTransaction/base58.go
+++ b/btcTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/cxcTransaction/base58.go b/cxcTransaction/base58.go
index 0f20851..d897f9c 100644
--- a/cxcTransaction/base58.go
+++ b/cxcTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/elastosTransaction/base58.go b/elastosTransaction/base58.go
index 101d9bc..f4e2604 100644
--- a/elastosTransaction/base58.go
+++ b/elastosTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/fiiiTransaction/base58.go b/fiiiTransaction/base58.go
index e351c84..e2cf5c0 100644
--- a/fiiiTransaction/base58.go
+++ b/fiiiTransaction/base58.go
@@ -179,7 +179,7 @@ func DecodeCheck(address string, prefix []byte) ([]byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/hcTransaction/base58.go b/hcTransaction/base58.go
index 90032f3..1de81af 100644
--- a/hcTransaction/base58.go
+++ b/hcTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/hypercashTransaction/base58.go b/hypercashTransaction/base58.go
index c041f38..a1308af 100644
--- a/hypercashTransaction/base58.go
+++ b/hypercashTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(owcrypt.Hash(data, 0, owcrypt.HASH_ALG_BLAKE256), 0, owcrypt.HASH_ALG_BLAKE256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/omniTransaction/base58.go b/omniTransaction/base58.go
index bef265d..6d7daa8 100644
--- a/omniTransaction/base58.go
+++ b/omniTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/owkeychain/owencode.go b/owkeychain/owencode.go
index cdab5af..7071272 100644
--- a/owkeychain/owencode.go
+++ b/owkeychain/owencode.go
@@ -23,7 +23,8 @@ func Base58checkEncode(data []byte, fix []byte) string {
 	hash = ctx.Sum(nil)
 
 	fix_value := []byte{}
-	fix_value = append(fix, data...)
+	fix_value = append(fix_value, fix...)
+	fix_value = append(fix_value, data...)
 	fix_value = append(fix_value, hash[:4]...)
 
 	return Encode(fix_value[:], BitcoinAlphabet)
diff --git a/vollarTransaction/base58.go b/vollarTransaction/base58.go
index 72d5243..af72c81 100644
--- a/vollarTransaction/base58.go
+++ b/vollarTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/waykichainTransaction/base58.go b/waykichainTransaction/base58.go
index 76d5552..bbfcd41 100644
--- a/waykichainTransaction/base58.go
+++ b/waykichainTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/zencashTransaction/base58.go b/zencashTransaction/base58.go
index 663ba09..949ac3b 100644
--- a/zencashTransaction/base58.go
+++ b/zencashTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
-- 
2.43.0


From 2b7ad427faf696eb88bf49dd2fbc185a580e0014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:16 +0000
Subject: [PATCH 29/76] fix: OWDecode refuses short texts instead of crashing

---
 owkeychain/owencode.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/owkeychain/owencode.go b/owkeychain/owencode.go
index 7071272..48967c2 100644
--- a/owkeychain/owencode.go
+++ b/owkeychain/owencode.go
@@ -36,6 +36,9 @@ func Base58checkDecode(address string, fix []byte) ([]byte, error) {
 	if err != nil {
 		return nil, ErrInvalidAddress
 	}
+	if len(decodeBytes) < len(fix)+4 {
+		return nil, ErrInvalidAddress
+	}
 	for i := 0; i < len(fix); i++ {
 		if fix[i] != decodeBytes[i] {
 			return nil, ErrInvalidAddress
@@ -108,13 +111,16 @@ func OWDecode(data string) (*ExtendedKey, error) {
 			}
 		}
 	}
+	if len(decodeBytes) < 46 {
+		return nil, ErrInvalidAddress
+	}
 	curveType := bytesToUInt32(decodeBytes[:4])
 	depth := decodeBytes[4]
 	parentFP := decodeBytes[5:9]
 	serializes := bytesToUInt32(decodeBytes[9:13])
 	chainCode := decodeBytes[13:45]
 	if curveType == owcrypt.ECC_CURVE_ED25519 || curveType == owcrypt.ECC_CURVE_X25519 || curveType == owcrypt.ECC_CURVE_CURVE25519_SHA256 || privateFlag {
-		if decodeBytes[45] != 0 {
+		if len(decodeBytes) != 78 || decodeBytes[45] != 0 {
 			return nil, ErrInvalidAddress
 		}
 		key := decodeBytes[46:]
-- 
2.43.0


From 259382416fd63c39a51b28f01d604bff6c6be3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:17 +0000
Subject: [PATCH 30/76] fix: child private keys with several leading zero bytes
 keep 32 bytes

---
 owkeychain/extendedkey.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/owkeychain/extendedkey.go b/owkeychain/extendedkey.go
index 97f56cd..354cc45 100644
--- a/owkeychain/extendedkey.go
+++ b/owkeychain/extendedkey.go
@@ -120,9 +120,7 @@ func getPriChildViaPriParent(il, prikey []byte, typeChoose uint32) ([]byte, erro
 		}
 		priChild = ilNum.Bytes()
 		if len(priChild) < 32 {
-			for i := 0; i < 32-len(priChild); i++ {
-				priChild = append([]byte{0x00}, priChild...)
-			}
+			priChild = append(make([]byte, 32-len(priChild)), priChild...)
 		}
 		priChild = inverse(priChild)
 	} else {
@@ -139,9 +137,7 @@ func getPriChildViaPriParent(il, prikey []byte, typeChoose uint32) ([]byte, erro
 		}
 		priChild = ilNum.Bytes()
 		if len(priChild) < 32 {
-			for i := 0; i < 32-len(priChild); i++ {
-				priChild = append([]byte{0x00}, priChild...)
-			}
+			priChild = append(make([]byte, 32-len(priChild)), priChild...)
 		}
 	}
 	return priChild, nil
-- 
2.43.0


From 33726213ba596d7188ef2a46f7f059d4b88ecfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:17 +0000
Subject: [PATCH 31/76] fix: GenPublicChild from a public key respects the
 depth limit

---
 owkeychain/extendedkey.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/owkeychain/extendedkey.go b/owkeychain/extendedkey.go
index 354cc45..f640e99 100644
--- a/owkeychain/extendedkey.go
+++ b/owkeychain/extendedkey.go
@@ -245,6 +245,10 @@ func (k *ExtendedKey) GenPublicChild(serializes uint32) (*ExtendedKey, error) {
 		typeChoose = owcrypt.ECC_CURVE_ED25519
 	}
 	if !k.isPrivate {
+		//越过最大深度限制
+		if k.depth == maxUint8 {
+			return nil, ErrDeriveBeyondMaxDepth
+		}
 		if serializes >= HardenedKeyStart { //不能从父公钥强化扩展
 			return nil, ErrDeriveHardFromPublic
 		}
-- 
2.43.0


From 7902ae70cf32c846778e1e60dde143fcff806967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:17 +0000
Subject: [PATCH 32/76] fix: invalid public keys in owkeychain give an error
 instead of a crash

---
 owkeychain/extendedkey.go | 3 +++
 owkeychain/hdkey.go       | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/owkeychain/extendedkey.go b/owkeychain/extendedkey.go
index f640e99..ed90a31 100644
--- a/owkeychain/extendedkey.go
+++ b/owkeychain/extendedkey.go
@@ -179,6 +179,9 @@ func getPubChildViaPubParent(il, pubkey []byte, typeChoose uint32) ([]byte, erro
 		return point, nil
 	}
 	parentPubPoint := owcrypt.PointDecompress(pubkey, typeChoose)
+	if len(parentPubPoint) == 0 {
+		return nil, ErrInvalidChild
+	}
 	point, isinfinity := owcrypt.Point_mulBaseG_add(parentPubPoint[1:], il, typeChoose)
 	if isinfinity {
 		return nil, ErrInvalidChild
diff --git a/owkeychain/hdkey.go b/owkeychain/hdkey.go
index e6ab4d1..2aff1ba 100644
--- a/owkeychain/hdkey.go
+++ b/owkeychain/hdkey.go
@@ -159,7 +159,11 @@ func (k *ExtendedKey) GetUncompressedPublicKeyBytes() []byte {
 		pubkey = k.key
 	}
 
-	return owcrypt.PointDecompress(pubkey, k.curveType)[1:]
+	point := owcrypt.PointDecompress(pubkey, k.curveType)
+	if len(point) == 0 {
+		return nil
+	}
+	return point[1:]
 }
 
 //GePublicKey 获取公钥结构体
-- 
2.43.0


From c5a6d9e02bdd4cbb86fd21dc6d1f7f321969f5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:17 +0000
Subject: [PATCH 33/76] fix: derivation path elements out of range are refused
 instead of wrapping

---
 owkeychain/hdkey.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/owkeychain/hdkey.go b/owkeychain/hdkey.go
index 2aff1ba..d4ef59b 100644
--- a/owkeychain/hdkey.go
+++ b/owkeychain/hdkey.go
@@ -43,13 +43,13 @@ func DerivedPrivateKeyWithPath(seed []byte, derivedPath string, curveType uint32
 
 		if strings.Index(elem, "'") == len(elem)-1 {
 			elem = elem[0 : len(elem)-1]
-			index, err := strconv.Atoi(elem)
+			index, err := strconv.ParseUint(elem, 10, 31)
 			if err != nil {
 				return nil, ErrInvalidDerivedPath
 			}
 			hdSerializes = uint32(index) + HardenedKeyStart
 		} else {
-			index, err := strconv.Atoi(elem)
+			index, err := strconv.ParseUint(elem, 10, 32)
 			if err != nil {
 				return nil, ErrInvalidDerivedPath
 			}
@@ -110,13 +110,13 @@ func (k *ExtendedKey) DerivedPublicKeyFromPath(derivedPath string) (*ExtendedKey
 
 		if strings.Index(elem, "'") == len(elem)-1 {
 			elem = elem[0 : len(elem)-1]
-			index, err := strconv.Atoi(elem)
+			index, err := strconv.ParseUint(elem, 10, 31)
 			if err != nil {
 				return nil, ErrInvalidDerivedPath
 			}
 			hdSerializes = uint32(index) + HardenedKeyStart
 		} else {
-			index, err := strconv.Atoi(elem)
+			index, err := strconv.ParseUint(elem, 10, 32)
 			if err != nil {
 				return nil, ErrInvalidDerivedPath
 			}
-- 
2.43.0


From d222641ac997b7a1427d36c55b419281a13e8e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:18 +0000
Subject: [PATCH 34/76] fix: verge, aliencoin and vollar refuse malformed coins
 and destinations

---
 aliencoinTransaction/txIn.go     | 4 ++--
 aliencoinTransaction/txOut.go    | 2 +-
 aliencoinTransaction/txStruct.go | 4 ++++
 vergeTransaction/txIn.go         | 4 ++--
 vergeTransaction/txOut.go        | 2 +-
 vergeTransaction/txStruct.go     | 4 ++++
 vollarTransaction/txIn.go        | 4 ++--
 vollarTransaction/txOut.go       | 2 +-
 vollarTransaction/txStruct.go    | 4 ++++
 9 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/aliencoinTransaction/txIn.go b/aliencoinTransaction/txIn.go
index 0d1c7d6..9ecb4a6 100644
--- a/aliencoinTransaction/txIn.go
+++ b/aliencoinTransaction/txIn.go
@@ -16,14 +16,14 @@ type TxIn struct {
 
 func (in Vin) NewTxIn() (*TxIn, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid txid!")
 	}
 
 	vout := make([]byte, 4)
 	binary.LittleEndian.PutUint32(vout[:], in.Vout)
 	lockScript, err := hex.DecodeString(in.LockScript)
-	if err != nil {
+	if err != nil || len(lockScript) > 252 {
 		return nil, errors.New("invalid lock script!")
 	}
 	lockScript = append([]byte{byte(len(lockScript))}, lockScript...)
diff --git a/aliencoinTransaction/txOut.go b/aliencoinTransaction/txOut.go
index b4a79e0..b0d8fb6 100644
--- a/aliencoinTransaction/txOut.go
+++ b/aliencoinTransaction/txOut.go
@@ -18,7 +18,7 @@ func (out Vout) NewTxOut() (*TxOut, error) {
 
 	prefix, lockScript, err := DecodeCheck(out.Address)
 
-	if err != nil {
+	if err != nil || len(lockScript) != 20 {
 		return nil, errors.New("Invalid address to send!")
 	}
 
diff --git a/aliencoinTransaction/txStruct.go b/aliencoinTransaction/txStruct.go
index 5847351..f48d30e 100644
--- a/aliencoinTransaction/txStruct.go
+++ b/aliencoinTransaction/txStruct.go
@@ -24,6 +24,10 @@ func NewTxStruct(vins []Vin, vouts []Vout, lockTime uint32) (*TxStruct, error) {
 
 	ret.LockTime = uint32ToLittleEndianBytes(lockTime)
 
+	if len(vins) == 0 || len(vins) > 252 || len(vouts) == 0 || len(vouts) > 252 {
+		return nil, errors.New("Invalid count of inputs or outputs!")
+	}
+
 	for _, in := range vins {
 		txin, err := in.NewTxIn()
 		if err != nil {
diff --git a/vergeTransaction/txIn.go b/vergeTransaction/txIn.go
index bb6dc21..2b11396 100644
--- a/vergeTransaction/txIn.go
+++ b/vergeTransaction/txIn.go
@@ -16,14 +16,14 @@ type TxIn struct {
 
 func (in Vin) NewTxIn() (*TxIn, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid txid!")
 	}
 
 	vout := make([]byte, 4)
 	binary.LittleEndian.PutUint32(vout[:], in.Vout)
 	lockScript, err := hex.DecodeString(in.LockScript)
-	if err != nil {
+	if err != nil || len(lockScript) > 252 {
 		return nil, errors.New("invalid lock script!")
 	}
 	lockScript = append([]byte{byte(len(lockScript))}, lockScript...)
diff --git a/vergeTransaction/txOut.go b/vergeTransaction/txOut.go
index 85b9481..613b848 100644
--- a/vergeTransaction/txOut.go
+++ b/vergeTransaction/txOut.go
@@ -18,7 +18,7 @@ func (out Vout) NewTxOut() (*TxOut, error) {
 
 	prefix, lockScript, err := DecodeCheck(out.Address)
 
-	if err != nil {
+	if err != nil || len(lockScript) != 20 {
 		return nil, errors.New("Invalid address to send!")
 	}
 
diff --git a/vergeTransaction/txStruct.go b/vergeTransaction/txStruct.go
index 08f324f..3022069 100644
--- a/vergeTransaction/txStruct.go
+++ b/vergeTransaction/txStruct.go
@@ -29,6 +29,10 @@ func NewTxStruct(vins []Vin, vouts []Vout, timeInterval, lockTime uint32) (*TxSt
 	ret.TimeInterval = uint32ToLittleEndianBytes(timeuntil)
 	ret.LockTime = uint32ToLittleEndianBytes(lockTime)
 
+	if len(vins) == 0 || len(vins) > 252 || len(vouts) == 0 || len(vouts) > 252 {
+		return nil, errors.New("Invalid count of inputs or outputs!")
+	}
+
 	for _, in := range vins {
 		txin, err := in.NewTxIn()
 		if err != nil {
diff --git a/vollarTransaction/txIn.go b/vollarTransaction/txIn.go
index 61b9a11..e360973 100644
--- a/vollarTransaction/txIn.go
+++ b/vollarTransaction/txIn.go
@@ -16,14 +16,14 @@ type TxIn struct {
 
 func (in Vin) NewTxIn() (*TxIn, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid txid!")
 	}
 
 	vout := make([]byte, 4)
 	binary.LittleEndian.PutUint32(vout[:], in.Vout)
 	lockScript, err := hex.DecodeString(in.LockScript)
-	if err != nil {
+	if err != nil || len(lockScript) > 252 {
 		return nil, errors.New("invalid lock script!")
 	}
 	lockScript = append([]byte{byte(len(lockScript))}, lockScript...)
diff --git a/vollarTransaction/txOut.go b/vollarTransaction/txOut.go
index f0d0d03..2271744 100644
--- a/vollarTransaction/txOut.go
+++ b/vollarTransaction/txOut.go
@@ -23,7 +23,7 @@ type TxOut struct {
 func (out Vout) NewTxOut() (*TxOut, error) {
 	prefix, lockScript, err := DecodeCheck(out.Address)
 
-	if err != nil {
+	if err != nil || len(lockScript) != 20 {
 		return nil, errors.New("Invalid address to send!")
 	}
 
diff --git a/vollarTransaction/txStruct.go b/vollarTransaction/txStruct.go
index a173894..f7603a9 100644
--- a/vollarTransaction/txStruct.go
+++ b/vollarTransaction/txStruct.go
@@ -22,6 +22,10 @@ type TxStruct struct {
 func NewTxStruct(vins []Vin, vouts []Vout) (*TxStruct, error) {
 	ret := TxStruct{Version: DefaultTxVersion, Flag: DefaultTxFlag}
 
+	if len(vins) == 0 || len(vins) > 252 || len(vouts) == 0 || len(vouts) > 252 {
+		return nil, errors.New("Invalid count of inputs or outputs!")
+	}
+
 	for _, in := range vins {
 		txin, err := in.NewTxIn()
 		if err != nil {
-- 
2.43.0


From 8d7cc3c9e15f59f238eab8a36a9b7fc84aad3455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:18 +0000
Subject: [PATCH 35/76] fix: verge, aliencoin and vollar reject bad keys and
 signatures instead of crashing or emitting them

---
 aliencoinTransaction/transaction.go |  4 ++--
 aliencoinTransaction/txStruct.go    |  5 ++++-
 vergeTransaction/transaction.go     |  4 ++--
 vergeTransaction/txStruct.go        |  5 ++++-
 vollarTransaction/transaction.go    | 12 +++++-------
 5 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/aliencoinTransaction/transaction.go b/aliencoinTransaction/transaction.go
index 659d15b..f650b48 100644
--- a/aliencoinTransaction/transaction.go
+++ b/aliencoinTransaction/transaction.go
@@ -64,8 +64,8 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPubs []SigPub) (bool, str
 	}
 	for index := 0; index < len(sigPubs); index++ {
 		hashBytes, _ := hex.DecodeString(hashes[index])
-		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
+		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) == 0 || owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			return false, "", errors.New("verify transaction failed!")
 		}
 		txStruct.Vin[index].SigPub = &sigPubs[index]
diff --git a/aliencoinTransaction/txStruct.go b/aliencoinTransaction/txStruct.go
index f48d30e..13470a7 100644
--- a/aliencoinTransaction/txStruct.go
+++ b/aliencoinTransaction/txStruct.go
@@ -190,7 +190,10 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	}
 
 	for i := 0; i < len(txStruct.Vin); i++ {
-		lock, _ := hex.DecodeString(dataArray[i+1])
+		lock, err := hex.DecodeString(dataArray[i+1])
+		if err != nil || len(lock) > 252 {
+			return nil, nil, errors.New("invalid lock script!")
+		}
 		lock = append([]byte{byte(len(lock))}, lock...)
 		txStruct.Vin[i].LockScript = lock
 	}
diff --git a/vergeTransaction/transaction.go b/vergeTransaction/transaction.go
index 3663478..0e6e661 100644
--- a/vergeTransaction/transaction.go
+++ b/vergeTransaction/transaction.go
@@ -64,8 +64,8 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPubs []SigPub) (bool, str
 	}
 	for index := 0; index < len(sigPubs); index++ {
 		hashBytes, _ := hex.DecodeString(hashes[index])
-		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
+		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) == 0 || owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			return false, "", errors.New("verify transaction failed!")
 		}
 		txStruct.Vin[index].SigPub = &sigPubs[index]
diff --git a/vergeTransaction/txStruct.go b/vergeTransaction/txStruct.go
index 3022069..3330750 100644
--- a/vergeTransaction/txStruct.go
+++ b/vergeTransaction/txStruct.go
@@ -203,7 +203,10 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	}
 
 	for i := 0; i < len(txStruct.Vin); i++ {
-		lock, _ := hex.DecodeString(dataArray[i+1])
+		lock, err := hex.DecodeString(dataArray[i+1])
+		if err != nil || len(lock) > 252 {
+			return nil, nil, errors.New("invalid lock script!")
+		}
 		lock = append([]byte{byte(len(lock))}, lock...)
 		txStruct.Vin[i].LockScript = lock
 	}
diff --git a/vollarTransaction/transaction.go b/vollarTransaction/transaction.go
index 6a52069..c0f86ef 100644
--- a/vollarTransaction/transaction.go
+++ b/vollarTransaction/transaction.go
@@ -61,7 +61,7 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub []SigPub) (bool, s
 	}
 	for index := 0; index < len(lockScripts); index++ {
 		ls, err := hex.DecodeString(lockScripts[index])
-		if err != nil {
+		if err != nil || len(ls) > 252 {
 			return false, "", errors.New("invalid lock script!")
 		}
 		trans.Vin[index].LockScript = append([]byte{byte(len(ls))}, ls...)
@@ -72,13 +72,11 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub []SigPub) (bool, s
 		return false, "", err
 	}
 
-	pass := true
-
 	for i := 0; i < len(sigPub); i++ {
 		hash, _ := hex.DecodeString(hashes[i])
-		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
-			pass = false
+		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) == 0 || owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
+			return false, "", errors.New("verify transaction failed!")
 		}
 		trans.Vin[i].SigPub = &sigPub[i]
 	}
@@ -87,5 +85,5 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub []SigPub) (bool, s
 	for index := 0; index < 82+len(trans.Vin); index++ {
 		txBytes = append(txBytes, byte(0))
 	}
-	return pass, hex.EncodeToString(txBytes), nil
+	return true, hex.EncodeToString(txBytes), nil
 }
-- 
2.43.0


From ba9b23e10445ffb168454f66bf49f9b3614eb0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:18 +0000
Subject: [PATCH 36/76] fix: aliencoin encodes signatures with leading zero
 bytes in strict DER

---
 aliencoinTransaction/txSigPub.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aliencoinTransaction/txSigPub.go b/aliencoinTransaction/txSigPub.go
index 71a40d7..5321423 100644
--- a/aliencoinTransaction/txSigPub.go
+++ b/aliencoinTransaction/txSigPub.go
@@ -41,7 +41,7 @@ func (sp SigPub) ToBytes() []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[i] == 0 {
+			if r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -52,7 +52,7 @@ func (sp SigPub) ToBytes() []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[i] == 0 {
+			if s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
-- 
2.43.0


From df203c985c936dd3d8a90e08d1afeb4aed46bec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:18 +0000
Subject: [PATCH 37/76] fix: elastos refuses malformed ids, bad keys and
 missing signatures

---
 elastosTransaction/transaction.go | 8 ++++++--
 elastosTransaction/txIn.go        | 2 +-
 elastosTransaction/txOut.go       | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/elastosTransaction/transaction.go b/elastosTransaction/transaction.go
index f76d156..5976cdf 100644
--- a/elastosTransaction/transaction.go
+++ b/elastosTransaction/transaction.go
@@ -71,11 +71,15 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPubs []SigPub) (bool,
 		return false, ""
 	}
 
+	if len(txBytes) == 0 || len(sigPubs) == 0 {
+		return false, ""
+	}
+
 	hash := owcrypt.Hash(txBytes, 0, owcrypt.HASH_ALG_SHA256)
 
 	for _, sp := range sigPubs {
-		publicKey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)[1:]
-		if owcrypt.SUCCESS != owcrypt.Verify(publicKey, nil, hash, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
+		publicKey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)
+		if len(publicKey) == 0 || owcrypt.SUCCESS != owcrypt.Verify(publicKey[1:], nil, hash, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
 			return false, ""
 		}
 	}
diff --git a/elastosTransaction/txIn.go b/elastosTransaction/txIn.go
index 94342e6..77cc91f 100644
--- a/elastosTransaction/txIn.go
+++ b/elastosTransaction/txIn.go
@@ -10,7 +10,7 @@ type Input struct {
 
 func (in Vin) NewInput() (*Input, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid previous transaction ID!")
 	}
 	vout := uint16ToLittleEndianBytes(in.Vout)
diff --git a/elastosTransaction/txOut.go b/elastosTransaction/txOut.go
index 29b3251..16edb93 100644
--- a/elastosTransaction/txOut.go
+++ b/elastosTransaction/txOut.go
@@ -13,7 +13,7 @@ type Output struct {
 
 func (out Vout) NewOutput() (*Output, error) {
 	assetID, err := reverseHexToBytes(out.AssetID)
-	if err != nil {
+	if err != nil || len(assetID) != 32 {
 		return nil, errors.New("Invalid Asset ID!")
 	}
 
-- 
2.43.0


From f89fcb3999e77a39718be9af4d16f9483fc5c32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:18 +0000
Subject: [PATCH 38/76] fix: bigbang refuses empty addresses, bad anchors and
 data or inputs the length byte cannot count

---
 bigbangTransaction/address.go  | 2 +-
 bigbangTransaction/txStruct.go | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/bigbangTransaction/address.go b/bigbangTransaction/address.go
index 680ab08..0c1e8c1 100644
--- a/bigbangTransaction/address.go
+++ b/bigbangTransaction/address.go
@@ -6,7 +6,7 @@ import (
 )
 
 func addressDecode(address string) ([]byte, error) {
-	if address[:1] != pubkeyPrefix {
+	if len(address) == 0 || address[:1] != pubkeyPrefix {
 		return nil, errors.New("Invalid address, only public key address supported!")
 	}
 
diff --git a/bigbangTransaction/txStruct.go b/bigbangTransaction/txStruct.go
index 539c1c6..7f2d89c 100644
--- a/bigbangTransaction/txStruct.go
+++ b/bigbangTransaction/txStruct.go
@@ -28,12 +28,12 @@ func NewTxStruct(version, txtype uint16, timestamp, lockUntil uint32, anchor str
 	tx.LockUntil = uint32ToLittleEndianBytes(lockUntil)
 
 	anchorBytes, err := reverseHexToBytes(anchor)
-	if err != nil {
+	if err != nil || len(anchorBytes) != 32 {
 		return nil, errors.New("Invalid anchor string!")
 	}
 	tx.Anchor = anchorBytes
 
-	if inputs == nil || len(inputs) == 0 {
+	if inputs == nil || len(inputs) == 0 || len(inputs) > 252 {
 		return nil, errors.New("Miss input!")
 	}
 
@@ -59,6 +59,9 @@ func NewTxStruct(version, txtype uint16, timestamp, lockUntil uint32, anchor str
 		return nil, errors.New("Invalid fee!")
 	}
 	tx.Fee = uint64ToLittleEndianBytes(fee)
+	if len(data) > 252 {
+		return nil, errors.New("Invalid data!")
+	}
 	if data == "" {
 		tx.Data = []byte{0x00}
 	} else {
-- 
2.43.0


From cb7089470ebad6bf2ff06551b1ae4a0744c9cf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:18 +0000
Subject: [PATCH 39/76] fix: hypercash VerifyAndCombineTransaction rejects
 short templates and bad keys instead of crashing

---
 hypercashTransaction/transaction.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hypercashTransaction/transaction.go b/hypercashTransaction/transaction.go
index 0af3a30..a011f69 100644
--- a/hypercashTransaction/transaction.go
+++ b/hypercashTransaction/transaction.go
@@ -137,7 +137,7 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPub []*SigPub) (bool, str
 	}
 
 	txBytes, err := hex.DecodeString(transData[0])
-	if err != nil {
+	if err != nil || len(txBytes) < 4 {
 		return false, ""
 	}
 
@@ -184,9 +184,13 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPub []*SigPub) (bool, str
 
 		hash := owcrypt.Hash(hashData, 0, owcrypt.HASH_ALG_BLAKE256)
 
-		pubkey := owcrypt.PointDecompress(sigPub[i].PublicKey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+		if sigPub[i] == nil {
+			return false, ""
+		}
+
+		pubkey := owcrypt.PointDecompress(sigPub[i].PublicKey, owcrypt.ECC_CURVE_SECP256K1)
 
-		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
+		if len(pubkey) == 0 || owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			return false, ""
 		}
 
-- 
2.43.0


From 39c993a04e80d16617898c130f1b8d6ce153a1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:04 +0000
Subject: [PATCH 40/76] fix: ripple payments refuse amounts, fees and
 destination tags that do not fit their fields

---
 rippleTransaction/txStruct.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rippleTransaction/txStruct.go b/rippleTransaction/txStruct.go
index 37190d4..e8dbcca 100644
--- a/rippleTransaction/txStruct.go
+++ b/rippleTransaction/txStruct.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"errors"
+	"math"
 	"strings"
 
 	owcrypt "github.com/blocktree/go-owcrypt"
@@ -65,6 +66,9 @@ func getAmountBytes(amount uint64) ([]byte, error) {
 	if amount == 0 {
 		return nil, errors.New("Amount cannot be zero!")
 	}
+	if amount >= 1<<62 {
+		return nil, errors.New("Amount is too large!")
+	}
 	enc := getEncBytes(encodings["Amount"])
 	amountValue := newValue(true, false, amount, 0)
 	return append(enc, amountValue.Bytes()...), nil
@@ -74,6 +78,9 @@ func getFeeBytes(fee uint64) ([]byte, error) {
 	if fee == 0 {
 		return nil, errors.New("Fee cannot be zero!")
 	}
+	if fee >= 1<<62 {
+		return nil, errors.New("Fee is too large!")
+	}
 	enc := getEncBytes(encodings["Fee"])
 	feeValue := newValue(true, false, fee, 0)
 	return append(enc, feeValue.Bytes()...), nil
@@ -143,6 +150,9 @@ func NewTxStruct(from, pubkey string, sequence uint32, to string, amount, fee ui
 	txStruct.TransactionType = getTransactionTypeBytes(PAYMENT)
 	txStruct.Flags = getFlagsBytes(TxCanonicalSignature)
 	txStruct.Sequence = getSequenceBytes(sequence)
+	if destinationTag > math.MaxUint32 {
+		return nil, errors.New("Destination tag is too large!")
+	}
 	txStruct.DestinationTag = getDestinationTagBytes(destinationTag)
 	txStruct.LastLedgerSequence = getLastLedgerSequenceBytes(lastLedgerSequence)
 	txStruct.Amount, err = getAmountBytes(amount)
-- 
2.43.0


From 114acc76fe9e69da0a46e89ffeea12061cd8a9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:04 +0000
Subject: [PATCH 41/76] fix: ripple memos longer than 192 bytes get the two
 byte length prefix

---
 rippleTransaction/txProfile.go | 2 ++
 rippleTransaction/txStruct.go  | 3 +++
 rippleTransaction/txUtils.go   | 7 ++++++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/rippleTransaction/txProfile.go b/rippleTransaction/txProfile.go
index 5d9bdf6..3946b96 100644
--- a/rippleTransaction/txProfile.go
+++ b/rippleTransaction/txProfile.go
@@ -5,6 +5,8 @@ const (
 	PAYMENT              uint16 = 0x00
 	HP_TRANSACTION_SIGN  uint32 = 0x53545800
 	TxCanonicalSignature uint32 = 0x80000000
+	// longest field the two byte length prefix can describe
+	maxMemoLength = 12480
 )
 
 const (
diff --git a/rippleTransaction/txStruct.go b/rippleTransaction/txStruct.go
index e8dbcca..bbe2437 100644
--- a/rippleTransaction/txStruct.go
+++ b/rippleTransaction/txStruct.go
@@ -182,6 +182,9 @@ func NewTxStruct(from, pubkey string, sequence uint32, to string, amount, fee ui
 		return nil, err
 	}
 
+	if len(memoType) > maxMemoLength || len(memoData) > maxMemoLength || len(memoFormat) > maxMemoLength {
+		return nil, errors.New("Memo is too long!")
+	}
 	txStruct.Memos = getMemosBytes(memoType, memoData, memoFormat)
 
 	return &txStruct, nil
diff --git a/rippleTransaction/txUtils.go b/rippleTransaction/txUtils.go
index fcaf16e..9cbf0a8 100644
--- a/rippleTransaction/txUtils.go
+++ b/rippleTransaction/txUtils.go
@@ -112,5 +112,10 @@ func serilizeS(sig []byte) []byte {
 }
 
 func memoToBytes(memo string) []byte {
-	return append([]byte{byte(len(memo))}, []byte(memo)...)
+	n := len(memo)
+	if n <= 192 {
+		return append([]byte{byte(n)}, []byte(memo)...)
+	}
+	n -= 193
+	return append([]byte{byte(193 + n>>8), byte(n)}, []byte(memo)...)
 }
-- 
2.43.0


From 74f59fd729ccb7ad5c3500c1588204e2f5b99521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:04 +0000
Subject: [PATCH 42/76] fix: ripple verify-and-combine refuses invalid public
 keys and templates without exactly one signature slot

---
 rippleTransaction/transaction.go | 12 +++++++++---
 rippleTransaction/txStruct.go    |  3 +++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/rippleTransaction/transaction.go b/rippleTransaction/transaction.go
index 7635b80..0f03af0 100644
--- a/rippleTransaction/transaction.go
+++ b/rippleTransaction/transaction.go
@@ -41,10 +41,16 @@ func VerifyAndCombinRawTransaction(emptyTrans string, signature, publicKey strin
 	if err != nil {
 		return false, ""
 	}
-	pubkeyBytes = owcrypt.PointDecompress(pubkeyBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
-	if owcrypt.SUCCESS != owcrypt.Verify(pubkeyBytes, nil, hash, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
+	pubkeyBytes = owcrypt.PointDecompress(pubkeyBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubkeyBytes) != 65 {
+		return false, ""
+	}
+	if owcrypt.SUCCESS != owcrypt.Verify(pubkeyBytes[1:], nil, hash, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
+		return false, ""
+	}
+	txnSignature, err := getTxnSignatureBytes(signature)
+	if err != nil {
 		return false, ""
 	}
-	txnSignature, _ := getTxnSignatureBytes(signature)
 	return true, strings.Replace(emptyTrans, "s", hex.EncodeToString(txnSignature), -1)
 }
diff --git a/rippleTransaction/txStruct.go b/rippleTransaction/txStruct.go
index bbe2437..19674d2 100644
--- a/rippleTransaction/txStruct.go
+++ b/rippleTransaction/txStruct.go
@@ -234,6 +234,9 @@ func (tx TxStruct) GetHash() []byte {
 }
 
 func getHashFromEmptyRawHex(emptyTrans string) ([]byte, error) {
+	if strings.Count(emptyTrans, "s") != 1 {
+		return nil, errors.New("Invalid empty raw transaction data!")
+	}
 	emptyTrans = strings.Replace(emptyTrans, "s", "", -1)
 	txBytes, err := hex.DecodeString(emptyTrans)
 	if err != nil {
-- 
2.43.0


From 0f3124957f045270e93123c5c54c3f12d9499514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:56 +0000
Subject: [PATCH 43/76] fix: moac transfers encode single byte integers as
 themselves and refuse malformed addresses and numbers

---
 moacchainTransaction/txStruct.go | 133 ++++++++++---------------------
 moacchainTransaction/txUtils.go  |  19 ++++-
 2 files changed, 57 insertions(+), 95 deletions(-)

diff --git a/moacchainTransaction/txStruct.go b/moacchainTransaction/txStruct.go
index 1d3052b..138974c 100644
--- a/moacchainTransaction/txStruct.go
+++ b/moacchainTransaction/txStruct.go
@@ -22,12 +22,24 @@ type TxStruct struct {
 }
 
 func NewTxStruct(to string, nonce uint64, amount, gasLimit, gasPrice *big.Int, signature []byte, isTestNet bool) (*TxStruct, error) {
-	var tx TxStruct
+	var (
+		tx  TxStruct
+		err error
+	)
 	tx.Nonce = getUint64Bytes(nonce)
 	tx.SystemContract = getUint64Bytes(0) // not contract
-	tx.GasPrice = getBigIntBytes(gasPrice)
-	tx.GasLimit = getBigIntBytes(gasLimit)
-	tx.Amount = getBigIntBytes(amount)
+	tx.GasPrice, err = getBigIntBytes(gasPrice)
+	if err != nil {
+		return nil, err
+	}
+	tx.GasLimit, err = getBigIntBytes(gasLimit)
+	if err != nil {
+		return nil, err
+	}
+	tx.Amount, err = getBigIntBytes(amount)
+	if err != nil {
+		return nil, err
+	}
 	hash, err := getAddressHashBytes(to)
 	if err != nil {
 		return nil, err
@@ -76,96 +88,35 @@ func (tx *TxStruct) ToBytes() []byte {
 	return append(head, body...)
 }
 
-func decodeEmpty(txBytes []byte) (*TxStruct, error) {
-	var tx TxStruct
-	limit := len(txBytes)
-	index := 0
-
-	if index+1 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	if txBytes[index] <= 0x80 {
-		tx.Nonce = txBytes[index : index+1]
-		index++
-	} else {
-		if index+1+int(txBytes[index])-0x80 > limit {
-			return nil, errors.New("Invalid!")
-		}
-		tx.Nonce = txBytes[index : index+1+int(txBytes[index])-0x80]
-		index += (1 + int(txBytes[index]) - 0x80)
-	}
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.SystemContract = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.GasPrice = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.GasLimit = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
+// nextItem returns the item that starts at index and the index behind it
+func nextItem(txBytes []byte, index int) ([]byte, int, error) {
+	if index+1 > len(txBytes) || txBytes[index] > 0xB7 {
+		return nil, 0, errors.New("Invalid!")
 	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
+	end := index + 1
+	if txBytes[index] > 0x80 {
+		end += int(txBytes[index]) - 0x80
 	}
-	tx.Recipient = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.Amount = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
+	if end > len(txBytes) {
+		return nil, 0, errors.New("Invalid!")
 	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.Payload = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
+	return txBytes[index:end], end, nil
+}
 
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.ShardingFlag = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
+func decodeEmpty(txBytes []byte) (*TxStruct, error) {
+	var (
+		tx  TxStruct
+		err error
+	)
+	limit := len(txBytes)
+	index := 0
 
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
+	for _, field := range []*[]byte{&tx.Nonce, &tx.SystemContract, &tx.GasPrice, &tx.GasLimit, &tx.Recipient, &tx.Amount, &tx.Payload, &tx.ShardingFlag, &tx.Via} {
+		*field, index, err = nextItem(txBytes, index)
+		if err != nil {
+			return nil, err
+		}
 	}
-	tx.Via = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
 
 	if index+1 > limit {
 		return nil, errors.New("Invalid!")
@@ -190,8 +141,7 @@ func (tx *TxStruct) addSig(sig []byte, isTestNet bool) {
 			break
 		}
 	}
-	tx.R = getLengthBytes(len(r))
-	tx.R = append(tx.R, r...)
+	tx.R = getItemBytes(r)
 
 	s := sig[32:64]
 	for _, data := range s {
@@ -201,8 +151,7 @@ func (tx *TxStruct) addSig(sig []byte, isTestNet bool) {
 			break
 		}
 	}
-	tx.S = getLengthBytes(len(s))
-	tx.S = append(tx.S, s...)
+	tx.S = getItemBytes(s)
 
 	if isTestNet {
 		tx.ChainID = getUint64Bytes(uint64(sig[64] + 35 + ChainIDTestnet*2))
diff --git a/moacchainTransaction/txUtils.go b/moacchainTransaction/txUtils.go
index 7865861..8b75a4f 100644
--- a/moacchainTransaction/txUtils.go
+++ b/moacchainTransaction/txUtils.go
@@ -32,10 +32,23 @@ func getUint64Bytes(data uint64) []byte {
 	return append(getLengthBytes(8-index), bytes[index:]...)
 }
 
-func getBigIntBytes(data *big.Int) []byte {
+func getBigIntBytes(data *big.Int) ([]byte, error) {
+	if data == nil || data.Sign() < 0 {
+		return nil, errors.New("Invalid number!")
+	}
 	ret := data.Bytes()
+	if len(ret) > 32 {
+		return nil, errors.New("Invalid number!")
+	}
 
-	return append(getLengthBytes(len(ret)), ret...)
+	return getItemBytes(ret), nil
+}
+
+func getItemBytes(data []byte) []byte {
+	if len(data) == 1 && data[0] < 0x80 {
+		return data
+	}
+	return append(getLengthBytes(len(data)), data...)
 }
 
 func getHeadBytes(smalTag, largeTag byte, size uint64) []byte {
@@ -106,7 +119,7 @@ func putint(b []byte, i uint64) (size int) {
 }
 
 func getAddressHashBytes(address string) ([]byte, error) {
-	if address[:2] != "0x" {
+	if len(address) < 2 || address[:2] != "0x" {
 		return nil, errors.New("Invalid address!")
 	}
 	hash, err := hex.DecodeString(address[2:])
-- 
2.43.0


From 394626babd0f0564e02e60c22c584b8e8b86c1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:56 +0000
Subject: [PATCH 44/76] fix: moac verify-and-combine reads long templates and
 refuses truncated ones and those of the other network

---
 moacchainTransaction/transaction.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/moacchainTransaction/transaction.go b/moacchainTransaction/transaction.go
index 52f9ffb..331639d 100644
--- a/moacchainTransaction/transaction.go
+++ b/moacchainTransaction/transaction.go
@@ -1,6 +1,7 @@
 package moacchainTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 	"math/big"
@@ -49,18 +50,24 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, publicKey string, isT
 	if owcrypt.SUCCESS != owcrypt.Verify(pub, nil, hash, sig[:64], owcrypt.ECC_CURVE_SECP256K1) {
 		return false, ""
 	}
-	if len(txBytes) < 57 {
-		head := getHeadBytes(SmallTag, LargeTag, uint64(len(txBytes)-1))
-		if head[0] != txBytes[0] {
-			return false, ""
-		}
-	} else {
-		//
+	headLen := 1
+	if len(txBytes) > 56 {
+		headLen = 2
 	}
-	tx, err := decodeEmpty(txBytes[1:])
+	if len(txBytes) < headLen || !bytes.Equal(getHeadBytes(SmallTag, LargeTag, uint64(len(txBytes)-headLen)), txBytes[:headLen]) {
+		return false, ""
+	}
+	tx, err := decodeEmpty(txBytes[headLen:])
 	if err != nil {
 		return false, ""
 	}
+	chainID := ChainIDMainnet
+	if isTestNet {
+		chainID = ChainIDTestnet
+	}
+	if tx.ChainID[0] != chainID {
+		return false, ""
+	}
 	tx.addSig(sig, isTestNet)
 
 	return true, "0x" + hex.EncodeToString(tx.ToBytes())
-- 
2.43.0


From cce6d9371350e5af351341175830fe0786810a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:56 +0000
Subject: [PATCH 45/76] fix: ontology transfers refuse foreign payers, unknown
 assets and missing, negative or oversized amounts

---
 ontologyTransaction/txInvokeCode.go | 11 +++++++++++
 ontologyTransaction/txStruct.go     |  8 +++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/ontologyTransaction/txInvokeCode.go b/ontologyTransaction/txInvokeCode.go
index bdfbde9..84e7e74 100644
--- a/ontologyTransaction/txInvokeCode.go
+++ b/ontologyTransaction/txInvokeCode.go
@@ -63,6 +63,10 @@ func NewNativeInvokeV2(param TxStateV2) NativeInvokeV2 {
 func (ni NativeInvoke) ToBytes() ([]byte, error) {
 	ret := []byte{0x00}
 
+	if ni.Param.AssetType != AssetONT && ni.Param.AssetType != AssetONG && ni.Param.AssetType != AssetONGWithdraw {
+		return nil, errors.New("Invalid asset type!")
+	}
+
 	ret = append(ret, OpCodeNewStruct, OpCodeToALTStack, OpCodeDupFromALTStack)
 
 	prefix, inHash, err := DecodeCheck(ni.Param.From)
@@ -129,6 +133,10 @@ func (ni NativeInvoke) ToBytes() ([]byte, error) {
 func (ni NativeInvokeV2) ToBytes() ([]byte, error) {
 	ret := []byte{0x00}
 
+	if ni.Param.AssetType != AssetONT && ni.Param.AssetType != AssetONG && ni.Param.AssetType != AssetONGWithdraw {
+		return nil, errors.New("Invalid asset type!")
+	}
+
 	ret = append(ret, OpCodeNewStruct, OpCodeToALTStack, OpCodeDupFromALTStack)
 
 	prefix, inHash, err := DecodeCheck(ni.Param.From)
@@ -163,6 +171,9 @@ func (ni NativeInvokeV2) ToBytes() ([]byte, error) {
 
 	ret = append(ret, OpCodeAppend, OpCodeDupFromALTStack)
 
+	if ni.Param.Amount == nil || ni.Param.Amount.Sign() < 0 {
+		return nil, errors.New("Invalid amount!")
+	}
 	ret = append(ret, bigIntToEmitBytes(ni.Param.Amount)...)
 
 	ret = append(ret, OpCodeAppend, OpCodeFromALTStack)
diff --git a/ontologyTransaction/txStruct.go b/ontologyTransaction/txStruct.go
index 76d618b..f676909 100644
--- a/ontologyTransaction/txStruct.go
+++ b/ontologyTransaction/txStruct.go
@@ -24,7 +24,10 @@ func NewEmptyTransaction(assetType int, txType byte, nonce uint32, gasPrice, gas
 	} else {
 		version = ONGContractVersion
 	}
-	_, payerBytes, _ := DecodeCheck(payer)
+	prefix, payerBytes, err := DecodeCheck(payer)
+	if err != nil || prefix != AddressPrefix {
+		payerBytes = nil // refused by ToBytes
+	}
 	return Transaction{version, txType, uint32ToLittleEndianBytes(nonce), uint64ToLittleEndianBytes(gasPrice), uint64ToLittleEndianBytes(gasLimit), payerBytes, payload, DefaultAttribute, nil}
 }
 
@@ -81,6 +84,9 @@ func (t Transaction) ToBytes() ([]byte, error) {
 	if t.Payload == nil || len(t.Payload) == 0 {
 		return nil, errors.New("Invalid invoke code!")
 	}
+	if len(t.Payload) > 0xFC {
+		return nil, errors.New("Invoke code is too long!")
+	}
 	ret = append(ret, byte(len(t.Payload)))
 	ret = append(ret, t.Payload...)
 	ret = append(ret, t.Attributes)
-- 
2.43.0


From 474123c8a59e07d3cfaf6ef48feca02be9386e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:56 +0000
Subject: [PATCH 46/76] fix: ontology decodes transactions with one signature
 and keeps every signature

---
 ontologyTransaction/txStruct.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ontologyTransaction/txStruct.go b/ontologyTransaction/txStruct.go
index f676909..5e56703 100644
--- a/ontologyTransaction/txStruct.go
+++ b/ontologyTransaction/txStruct.go
@@ -202,13 +202,8 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		if index != limit {
 			return nil, errors.New("Invalid transaction data!")
 		}
-	} else if txBytes[index] == 0x01 {
-		sigpub, err := decodeSigPubBytes(txBytes[index:])
-		if err != nil {
-			return nil, err
-		}
-		tx.SigDatas = append(tx.SigDatas, SigData{0, []SigPub{*sigpub}})
 	} else {
+		var sigData SigData
 		sigLen := int(txBytes[index])
 		index++
 
@@ -220,9 +215,10 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 			if err != nil {
 				return nil, err
 			}
-			tx.SigDatas = append(tx.SigDatas, SigData{0, []SigPub{*sigpub}})
+			sigData.SigPubs = append(sigData.SigPubs, *sigpub)
 			index += 102
 		}
+		tx.SigDatas = append(tx.SigDatas, sigData)
 		if index != limit {
 			return nil, errors.New("Invalid transaction data!")
 		}
-- 
2.43.0


From 7f9a35d39952daafd866ab3cbc1d119dd5508a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:56 +0000
Subject: [PATCH 47/76] fix: ontology verify-and-combine refuses invalid keys,
 missing signatures and signed templates

---
 ontologyTransaction/transaction.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ontologyTransaction/transaction.go b/ontologyTransaction/transaction.go
index cd77e3f..b746351 100644
--- a/ontologyTransaction/transaction.go
+++ b/ontologyTransaction/transaction.go
@@ -96,11 +96,21 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigpub []SigPub) (bool, s
 		return false, "", err
 	}
 
+	if tx.SigDatas != nil {
+		return false, "", errors.New("Transaction is already signed!")
+	}
+	if len(sigpub) == 0 || len(sigpub) > 0xFC {
+		return false, "", errors.New("Invalid number of signatures!")
+	}
+
 	hashBytes := owcrypt.Hash(owcrypt.Hash(txBytes[:len(txBytes)-1], 0, owcrypt.HASH_ALG_DOUBLE_SHA256), 0, owcrypt.HASH_ALG_SHA256)
 	sigData.Nrequired = 0
 	for _, sp := range sigpub {
-		pubkey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)[1:]
-		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
+		pubkey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)
+		if len(pubkey) != 65 {
+			return false, "", errors.New("Invalid public key!")
+		}
+		if owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hashBytes, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
 			return false, "", errors.New("failed to verify transaction!")
 		}
 		sigData.SigPubs = append(sigData.SigPubs, sp)
@@ -108,5 +118,8 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigpub []SigPub) (bool, s
 	tx.SigDatas = append(tx.SigDatas, sigData)
 
 	signedTx, err := tx.ToBytes()
+	if err != nil {
+		return false, "", err
+	}
 	return true, hex.EncodeToString(signedTx), nil
 }
-- 
2.43.0


From e253878271b84c9359c2a56baf41195d1200ddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:39 +0000
Subject: [PATCH 48/76] fix: waykichain register ids are parsed completely or
 refused, for every transaction type

---
 waykichainTransaction/txStruct.go | 46 +++++++++----------------------
 waykichainTransaction/txUtils.go  | 18 ++++++++++++
 2 files changed, 31 insertions(+), 33 deletions(-)

diff --git a/waykichainTransaction/txStruct.go b/waykichainTransaction/txStruct.go
index be2fa1f..61d4098 100644
--- a/waykichainTransaction/txStruct.go
+++ b/waykichainTransaction/txStruct.go
@@ -3,8 +3,6 @@ package waykichainTransaction
 import (
 	"encoding/hex"
 	"errors"
-	"strconv"
-	"strings"
 
 	owcrypt "github.com/blocktree/go-owcrypt"
 )
@@ -29,16 +27,11 @@ func NewCommonTx(fromUserID, toAddress string, amount, fee, validHeight int64) (
 	}
 	commonTx.ValidHeight = int64ToUvarint(validHeight)
 
-	if !isRegIdStr(fromUserID) {
+	fromID, err := regIDToBytes(fromUserID)
+	if err != nil {
 		return nil, errors.New("Invalid from register ID!")
 	}
-	ids := strings.Split(fromUserID, "-")
-	idBytes := []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
-	}
-	commonTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
+	commonTx.FromUserID = fromID
 
 	destID, err := GetProgramHashFromAddress(toAddress)
 	if err != nil {
@@ -159,27 +152,16 @@ func NewCallContractTx(fromUserID, appID, contractHex string, validHeight, fee,
 		return nil, errors.New("Negative valid height!")
 	}
 	contractTx.ValidHeight = int64ToUvarint(validHeight)
-	if !isRegIdStr(fromUserID) {
+	fromID, err := regIDToBytes(fromUserID)
+	if err != nil {
 		return nil, errors.New("Invalid from register ID!")
 	}
-	ids := strings.Split(fromUserID, "-")
-	idBytes := []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
-	}
-	contractTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
+	contractTx.FromUserID = fromID
 
-	if !isRegIdStr(appID) {
-		return nil, errors.New("Invalid from register ID!")
-	}
-	ids = strings.Split(appID, "-")
-	idBytes = []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
+	contractTx.AppID, err = regIDToBytes(appID)
+	if err != nil {
+		return nil, errors.New("Invalid app register ID!")
 	}
-	contractTx.AppID = append([]byte{byte(len(idBytes))}, idBytes...)
 
 	contractTx.Fee = int64ToUvarint(fee)
 
@@ -244,13 +226,11 @@ func NewUcoinTransferTx(fromUserID, toAddress, coin string, validHeight, fee, am
 	}
 	ucoinTransferTx.ValidHeight = int64ToUvarint(validHeight)
 
-	ids := strings.Split(fromUserID, "-")
-	idBytes := []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
+	fromID, err := regIDToBytes(fromUserID)
+	if err != nil {
+		return nil, errors.New("Invalid from register ID!")
 	}
-	ucoinTransferTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
+	ucoinTransferTx.FromUserID = fromID
 
 	ucoinTransferTx.FeeSymbol = append([]byte{byte(len(DefaultFeeSymbol))}, []byte(DefaultFeeSymbol)...)
 
diff --git a/waykichainTransaction/txUtils.go b/waykichainTransaction/txUtils.go
index 8b256f8..9cc83b5 100644
--- a/waykichainTransaction/txUtils.go
+++ b/waykichainTransaction/txUtils.go
@@ -1,7 +1,10 @@
 package waykichainTransaction
 
 import (
+	"errors"
 	"regexp"
+	"strconv"
+	"strings"
 )
 
 func sizeofVarInt(value int64) int {
@@ -56,3 +59,18 @@ func isRegIdStr(regId string) bool {
 	re := regexp.MustCompile(`^\s*(\d+)\-(\d+)\s*$`)
 	return re.MatchString(regId)
 }
+
+func regIDToBytes(regId string) ([]byte, error) {
+	if !isRegIdStr(regId) {
+		return nil, errors.New("Invalid register ID!")
+	}
+	idBytes := []byte{}
+	for _, id := range strings.Split(strings.TrimSpace(regId), "-") {
+		data, err := strconv.ParseInt(id, 10, 64)
+		if err != nil {
+			return nil, errors.New("Invalid register ID!")
+		}
+		idBytes = append(idBytes, int64ToUvarint(data)...)
+	}
+	return append([]byte{byte(len(idBytes))}, idBytes...), nil
+}
-- 
2.43.0


From 4376ceda3bf99344ab78071491c1155b2aa2d9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:39 +0000
Subject: [PATCH 49/76] fix: waykichain transactions refuse negative amounts
 and fees and over-long contracts and coin names

---
 waykichainTransaction/txStruct.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/waykichainTransaction/txStruct.go b/waykichainTransaction/txStruct.go
index 61d4098..4c7e15a 100644
--- a/waykichainTransaction/txStruct.go
+++ b/waykichainTransaction/txStruct.go
@@ -25,6 +25,9 @@ func NewCommonTx(fromUserID, toAddress string, amount, fee, validHeight int64) (
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
+	if fee < 0 || amount < 0 {
+		return nil, errors.New("Negative amount or fee!")
+	}
 	commonTx.ValidHeight = int64ToUvarint(validHeight)
 
 	fromID, err := regIDToBytes(fromUserID)
@@ -93,6 +96,9 @@ func NewRegisterAccountTx(fromPubkey string, fee, validHeight int64) (*RegisterA
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
+	if fee < 0 {
+		return nil, errors.New("Negative amount or fee!")
+	}
 	registerAccountTx.ValidHeight = int64ToUvarint(validHeight)
 	pubkey, err := hex.DecodeString(fromPubkey)
 	if err != nil || len(pubkey) != 0x21 {
@@ -151,6 +157,9 @@ func NewCallContractTx(fromUserID, appID, contractHex string, validHeight, fee,
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
+	if fee < 0 || amount < 0 {
+		return nil, errors.New("Negative amount or fee!")
+	}
 	contractTx.ValidHeight = int64ToUvarint(validHeight)
 	fromID, err := regIDToBytes(fromUserID)
 	if err != nil {
@@ -171,6 +180,9 @@ func NewCallContractTx(fromUserID, appID, contractHex string, validHeight, fee,
 	if err != nil {
 		return nil, errors.New("Invalid contract hex!")
 	}
+	if len(contract) > 0xFC {
+		return nil, errors.New("Contract is too long!")
+	}
 	contractTx.ContractHex = append([]byte{byte(len(contract))}, contract...)
 
 	return &contractTx, nil
@@ -224,6 +236,9 @@ func NewUcoinTransferTx(fromUserID, toAddress, coin string, validHeight, fee, am
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
+	if fee < 0 || amount < 0 {
+		return nil, errors.New("Negative amount or fee!")
+	}
 	ucoinTransferTx.ValidHeight = int64ToUvarint(validHeight)
 
 	fromID, err := regIDToBytes(fromUserID)
@@ -243,7 +258,7 @@ func NewUcoinTransferTx(fromUserID, toAddress, coin string, validHeight, fee, am
 
 	ucoinTransferTx.To = append([]byte{byte(len(destID))}, destID...)
 
-	if coin == "" {
+	if coin == "" || len(coin) > 0xFC {
 		return nil, errors.New("Invalid coin name!")
 	}
 
-- 
2.43.0


From 02eba7e782499b0f211fbb4e6b166be05b51c328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:39 +0000
Subject: [PATCH 50/76] fix: waykichain verify-and-combine refuses invalid
 public keys and truncated templates

---
 waykichainTransaction/transaction.go | 7 +++++--
 waykichainTransaction/txStruct.go    | 4 ++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/waykichainTransaction/transaction.go b/waykichainTransaction/transaction.go
index 427e613..a5f5619 100644
--- a/waykichainTransaction/transaction.go
+++ b/waykichainTransaction/transaction.go
@@ -63,9 +63,12 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub SigPub) (bool, str
 	if err != nil {
 		return false, ""
 	}
-	pubkey := owcrypt.PointDecompress(sigPub.PublicKey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	pubkey := owcrypt.PointDecompress(sigPub.PublicKey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubkey) != 65 {
+		return false, ""
+	}
 
-	if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hash, sigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) {
+	if owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hash, sigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) {
 		return false, ""
 	}
 
diff --git a/waykichainTransaction/txStruct.go b/waykichainTransaction/txStruct.go
index 4c7e15a..6e76594 100644
--- a/waykichainTransaction/txStruct.go
+++ b/waykichainTransaction/txStruct.go
@@ -311,6 +311,10 @@ func getHashFromEmptyRawTrans(emptyTrans string) ([]byte, error) {
 		return nil, errors.New("Invalid transaction hex data!")
 	}
 
+	if len(txBytes) < 2 {
+		return nil, errors.New("Invalid transaction hex data!")
+	}
+
 	if (txBytes[0] != TxType_COMMON && txBytes[0] != TxType_REGACCT && txBytes[0] != TxType_CONTRACT && txBytes[0] != TxType_UcoinTransfer) || txBytes[1] != byte(Version) {
 		return nil, errors.New("Invalid transaction hex data!")
 	}
-- 
2.43.0


From 9875755d4c4dce8b25742506292fa5437ae81008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:32 +0000
Subject: [PATCH 51/76] fix: filenet refuses transfers whose total does not fit
 the amount field

---
 filenetTransaction/txStruct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filenetTransaction/txStruct.go b/filenetTransaction/txStruct.go
index e1283e2..aec7607 100644
--- a/filenetTransaction/txStruct.go
+++ b/filenetTransaction/txStruct.go
@@ -56,6 +56,9 @@ func NewTxStruct(in Vin, outs Vouts) (*TxStruct, error) {
 			return nil, errors.New("Invalid amount!")
 		}
 
+		if totleAmount+out.Amount < totleAmount {
+			return nil, errors.New("Total amount is too large!")
+		}
 		totleAmount += out.Amount
 
 		toBytes, err := decodeAddress(out.Address)
-- 
2.43.0


From 41c2ffc57930b5cce446b58c6da0af4f9151acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:32 +0000
Subject: [PATCH 52/76] fix: filenet VerifyAndCombineTransaction refuses
 invalid public keys and impossible destination counts

---
 filenetTransaction/transaction.go | 7 +++++--
 filenetTransaction/txStruct.go    | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/filenetTransaction/transaction.go b/filenetTransaction/transaction.go
index 1232413..604deed 100644
--- a/filenetTransaction/transaction.go
+++ b/filenetTransaction/transaction.go
@@ -66,9 +66,12 @@ func VerifyAndCombineTransaction(emptyTrans, signature, pubkey  string) (string,
 		return "", false
 	}
 
-	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubBytes) != 65 {
+		return "", false
+	}
 
-	if owcrypt.SUCCESS != owcrypt.Verify(pubBytes, nil, hash, sig, owcrypt.ECC_CURVE_SECP256K1) {
+	if owcrypt.SUCCESS != owcrypt.Verify(pubBytes[1:], nil, hash, sig, owcrypt.ECC_CURVE_SECP256K1) {
 		return "", false
 	}
 
diff --git a/filenetTransaction/txStruct.go b/filenetTransaction/txStruct.go
index aec7607..6c2ee57 100644
--- a/filenetTransaction/txStruct.go
+++ b/filenetTransaction/txStruct.go
@@ -161,6 +161,9 @@ func decodeRawTransaction(emptyTrans, signature string) (*Transfer, error) {
 	transfer.Timestamp = int64(littleEndianBytesToUint64(txBytes[index:index+8]))
 	index += 8
 
+	if toCount > uint64((limit-index)/28) {
+		return nil, errors.New("Invalid empty transaction hex string!")
+	}
 	txDetalis := make(TransferDetails, toCount)
 	for i := 0; i < int(toCount); i ++ {
 		if index + 28 > limit {
-- 
2.43.0


From 9647c7bc2ee6becfae94f92d08faba013af8f31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:32 +0000
Subject: [PATCH 53/76] fix: virtualeconomy refuses attachments, recipients
 that are not addresses and missing signatures

---
 virtualeconomyTransaction/transaction.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/virtualeconomyTransaction/transaction.go b/virtualeconomyTransaction/transaction.go
index fb0cf1b..425e5ef 100644
--- a/virtualeconomyTransaction/transaction.go
+++ b/virtualeconomyTransaction/transaction.go
@@ -44,13 +44,14 @@ func CreateEmptyTransaction(ts TxStruct) (string, error) {
 	binary.BigEndian.PutUint16(feeScale, ts.FeeScale)
 	txBytes = append(txBytes, feeScale...)
 	recipient, err := DecodeCheck(ts.To)
-	if err != nil {
+	if err != nil || len(recipient) != 26 {
 		return "", errors.New("Trying to send VSYS to an invalid address!")
 	}
 	txBytes = append(txBytes, recipient...)
-	if ts.Attachment == "" {
-		txBytes = append(txBytes, attachmentLen...)
+	if ts.Attachment != "" {
+		return "", errors.New("Non-empty attachment is not supported yet!")
 	}
+	txBytes = append(txBytes, attachmentLen...)
 
 	return hex.EncodeToString(txBytes), nil
 }
@@ -83,7 +84,7 @@ func SignTransaction(emptyTrans string, prikey []byte) (*SignaturePubkey, error)
 // 对签名结果进行验证
 func VerifyTransaction(emptyTrans string, sp *SignaturePubkey) bool {
 	txBytes, err := hex.DecodeString(emptyTrans)
-	if err != nil {
+	if err != nil || sp == nil {
 		return false
 	}
 
@@ -103,7 +104,7 @@ func CreateJSONRawForSendTransaction(emptyTrans string, sp *SignaturePubkey) (*g
 	)
 
 	txBytes, err := hex.DecodeString(emptyTrans)
-	if err != nil {
+	if err != nil || sp == nil {
 		return nil, errors.New("Invalid transaction hex string!")
 	}
 
-- 
2.43.0


From 20cdea2201b2cd5d85f728b91bc46885bae73ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:19 +0000
Subject: [PATCH 54/76] fix: polkadot compact numbers: zero and values from
 2^63

---
 polkadotTransaction/codec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polkadotTransaction/codec.go b/polkadotTransaction/codec.go
index edd827e..1e18e3f 100644
--- a/polkadotTransaction/codec.go
+++ b/polkadotTransaction/codec.go
@@ -39,7 +39,7 @@ func uint32ToLittleEndianBytes(data uint32) []byte {
 func removeExtraLEBytes(input []byte) []byte {
 	index := len(input)
 	for {
-		if input[index-1] != 0 {
+		if index == 1 || input[index-1] != 0 {
 			break
 		} else {
 			index--
@@ -89,7 +89,7 @@ func BytesToCompactBytes(bytes []byte) (res []byte) {
 }
 
 func getLeadingZeros(data uint64) int {
-	return 64 - big.NewInt(int64(data)).BitLen()
+	return 64 - new(big.Int).SetUint64(data).BitLen()
 }
 
 func getPrefix(data uint64) string {
-- 
2.43.0


From 8b957c241444cc052d550afbb77d45cc25b7e168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:19 +0000
Subject: [PATCH 55/76] fix: polkadot refuses malformed transfer codes, senders
 and signatures

---
 polkadotTransaction/txMethod.go | 5 ++++-
 polkadotTransaction/txStruct.go | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/polkadotTransaction/txMethod.go b/polkadotTransaction/txMethod.go
index cc85c5c..710bb88 100644
--- a/polkadotTransaction/txMethod.go
+++ b/polkadotTransaction/txMethod.go
@@ -38,7 +38,10 @@ func (mt MethodTransfer) ToBytes(transferCode string) ([]byte, error) {
 		return nil, errors.New("invalid method")
 	}
 
-	ret, _ := hex.DecodeString(transferCode)
+	ret, err := hex.DecodeString(transferCode)
+	if err != nil || len(ret) == 0 {
+		return nil, errors.New("invalid transfer code")
+	}
 	if AccounntIDFollow {
 		ret = append(ret, 0xff)
 	}
diff --git a/polkadotTransaction/txStruct.go b/polkadotTransaction/txStruct.go
index 8f4a389..826ab5b 100644
--- a/polkadotTransaction/txStruct.go
+++ b/polkadotTransaction/txStruct.go
@@ -115,7 +115,7 @@ func (ts TxStruct) GetSignedTransaction (transfer_code, signature string) (strin
 
 	from, err := hex.DecodeString(ts.SenderPubkey)
 	if err != nil || len(from) != 32 {
-		return "", nil
+		return "", errors.New("invalid sender public key")
 	}
 
 	signed = append(signed, from...)
@@ -124,7 +124,7 @@ func (ts TxStruct) GetSignedTransaction (transfer_code, signature string) (strin
 
 	sig, err := hex.DecodeString(signature)
 	if err != nil || len(sig) != 64 {
-		return "", nil
+		return "", errors.New("invalid signature")
 	}
 	signed = append(signed, sig...)
 
-- 
2.43.0


From 34fe77123e0d2afc6a222dc08b4e61ea3cdbf6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:57 +0000
Subject: [PATCH 56/76] fix: mateverse digests refuse inputs that are not the
 transaction's, malformed lock scripts and counts

---
 mateverseTransaction/transaction.go | 14 +++++++++++++-
 mateverseTransaction/txIn.go        |  6 ++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/mateverseTransaction/transaction.go b/mateverseTransaction/transaction.go
index 6dd9341..9ef3fd2 100644
--- a/mateverseTransaction/transaction.go
+++ b/mateverseTransaction/transaction.go
@@ -25,10 +25,18 @@ func GetSigHash(emptyTrans string, inputs *[]*TxInput) error {
 	if err != nil {
 		return errors.New("Invalid empty raw transaction!")
 	}
-	_, inputsEnd, err := decodeEmptyTx(trans)
+	empties, inputsEnd, err := decodeEmptyTx(trans)
 	if err != nil {
 		return err
 	}
+	if inputs == nil || len(*inputs) != len(empties) {
+		return errors.New("Inputs do not match the transaction!")
+	}
+	for i, input := range *inputs {
+		if input == nil || input.txID != empties[i].txID || input.vout != empties[i].vout || input.sequence != empties[i].sequence {
+			return errors.New("Inputs do not match the transaction!")
+		}
+	}
 
 	for i, input := range *inputs {
 		if input.lockScript == "" {
@@ -38,6 +46,10 @@ func GetSigHash(emptyTrans string, inputs *[]*TxInput) error {
 		if lockScript == "" || len(lockScript) < 50 {
 			return errors.New("Invalid lock script!")
 		}
+		lockBytes, err := hex.DecodeString(lockScript)
+		if err != nil || len(lockBytes) > 0xfc {
+			return errors.New("Invalid lock script!")
+		}
 		input.SetLockScript(lockScript)
 		_, err = hex.DecodeString(input.txID)
 		if err != nil || len(input.txID) != 64 {
diff --git a/mateverseTransaction/txIn.go b/mateverseTransaction/txIn.go
index 7747b42..b846539 100644
--- a/mateverseTransaction/txIn.go
+++ b/mateverseTransaction/txIn.go
@@ -59,6 +59,9 @@ func decodeEmptyTx(tx []byte) ([]*TxInput, int,  error) {
 	}
 
 	var inputCount int
+	if tx[index] > 0xfd {
+		return nil, 0, errors.New("Invalid tx data!")
+	}
 	if tx[index] != 0xfd {
 		inputCount = int(tx[index])
 		if inputCount == 0 {
@@ -71,6 +74,9 @@ func decodeEmptyTx(tx []byte) ([]*TxInput, int,  error) {
 			return nil, 0, errors.New("Invalid tx data!")
 		}
 		inputCount = int(littleEndianBytesToUint16(tx[index:index+2]))
+		if inputCount < 0xfd {
+			return nil, 0, errors.New("Invalid tx data!")
+		}
 		index += 2
 	}
 
-- 
2.43.0


From 9c5cc41e2b299b9d516209a8948a771ddfa429fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:57 +0000
Subject: [PATCH 57/76] fix: mateverse verify-and-combine checks the signatures
 against the given transaction and refuses invalid keys

---
 mateverseTransaction/transaction.go | 17 ++++++++++++++++-
 mateverseTransaction/txSigPub.go    |  7 +++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/mateverseTransaction/transaction.go b/mateverseTransaction/transaction.go
index 9ef3fd2..b2628e2 100644
--- a/mateverseTransaction/transaction.go
+++ b/mateverseTransaction/transaction.go
@@ -87,7 +87,22 @@ func SignTransaction(hash string, prikey []byte) (string, error) {
 
 func VerifyAndCombineTransaction(emptyTrans string, inputs []*TxInput) (bool, string) {
 
-	for _, input := range inputs {
+	checks := make([]*TxInput, len(inputs))
+	for i, input := range inputs {
+		if input == nil {
+			return false, ""
+		}
+		check := *input
+		checks[i] = &check
+	}
+	if err := GetSigHash(emptyTrans, &checks); err != nil {
+		return false, ""
+	}
+
+	for i, input := range inputs {
+		if input.hash != checks[i].hash {
+			return false, ""
+		}
 		if !verifyTransactionHash(input.pubkey, input.hash, input.signature) {
 			return false, ""
 		}
diff --git a/mateverseTransaction/txSigPub.go b/mateverseTransaction/txSigPub.go
index cee0d9e..53421e9 100644
--- a/mateverseTransaction/txSigPub.go
+++ b/mateverseTransaction/txSigPub.go
@@ -72,8 +72,11 @@ func verifyTransactionHash(pubkey, hash, signature string) bool {
 		return false
 	}
 
-	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
-	if owcrypt.SUCCESS != owcrypt.Verify(pubBytes, nil, hashBytes, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
+	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubBytes) != 65 {
+		return false
+	}
+	if owcrypt.SUCCESS != owcrypt.Verify(pubBytes[1:], nil, hashBytes, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
 		return false
 	}
 
-- 
2.43.0


From c2ef3218067a0dbc6bc3c88d296714a35640f5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:12 +0000
Subject: [PATCH 58/76] fix: fiii refuses output indexes that do not fit,
 malformed ids and templates with wrong counts

---
 fiiiTransaction/transaction.go | 4 ++++
 fiiiTransaction/txInput.go     | 9 ++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/fiiiTransaction/transaction.go b/fiiiTransaction/transaction.go
index 50caa9f..8b06363 100644
--- a/fiiiTransaction/transaction.go
+++ b/fiiiTransaction/transaction.go
@@ -96,6 +96,10 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPub []SigPub) (bool, stri
 		return false, "", errors.New("Invalid empty transaction data!")
 	}
 
+	if txMsg.InputCount != len(txMsg.Inputs) || txMsg.OutputCount != len(txMsg.Outputs) {
+		return false, "", errors.New("Invalid empty transaction data!")
+	}
+
 	if sigPub == nil || len(sigPub) == 0 || len(sigPub) != len(txMsg.Inputs) {
 		return false, "", errors.New("Signatures are not enough to unlock transaction!")
 	}
diff --git a/fiiiTransaction/txInput.go b/fiiiTransaction/txInput.go
index d6fffe3..89605f8 100644
--- a/fiiiTransaction/txInput.go
+++ b/fiiiTransaction/txInput.go
@@ -26,6 +26,10 @@ func (in Vin) NewInputMsg() (*InputMsg, error) {
 		return nil, err
 	}
 
+	if in.Vout < 0 || int64(in.Vout) > 0xFFFFFFFF {
+		return nil, errors.New("Invalid UTXO!")
+	}
+
 	ret.OutputTransactionHash = in.TxID
 	ret.OutputIndex = in.Vout
 
@@ -40,9 +44,12 @@ func (in Vin) genMessage() string {
 
 func (in InputMsg) genMessageBytes() ([]byte, error) {
 	msg, err := hex.DecodeString(in.OutputTransactionHash)
-	if err != nil {
+	if err != nil || len(msg) != 32 {
 		return nil, errors.New("Invalid UTXO ID!")
 	}
+	if in.OutputIndex < 0 || int64(in.OutputIndex) > 0xFFFFFFFF {
+		return nil, errors.New("Invalid UTXO index!")
+	}
 	vout := make([]byte, 4)
 	binary.BigEndian.PutUint32(vout[:], uint32(in.OutputIndex))
 
-- 
2.43.0


From fef7b37b5305d7f9a6f2664d179bee53140dc295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:12 +0000
Subject: [PATCH 59/76] fix: cosmos and evaio transactions without a fee no
 longer crash, and a zero fee coin does not drop the others

---
 cosmosTransaction/txStruct.go | 8 ++++++--
 evaioTransaction/txStruct.go  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cosmosTransaction/txStruct.go b/cosmosTransaction/txStruct.go
index 85e803a..0863773 100644
--- a/cosmosTransaction/txStruct.go
+++ b/cosmosTransaction/txStruct.go
@@ -12,9 +12,13 @@ type TxStruct struct {
 }
 
 func NewTxStruct(chainID, memo string, accountNumber, sequence int, fee *FeeStruct, message []Message) TxStruct {
-	if fee.Amount[0].Amount == "" {
-		fee.Amount = Coins{}
+	amount := Coins{}
+	for _, coin := range fee.Amount {
+		if coin.Amount != "" {
+			amount = append(amount, coin)
+		}
 	}
+	fee.Amount = amount
 	return TxStruct{
 		AccountNumber: strconv.FormatInt(int64(accountNumber), 10),
 		ChainID:       chainID,
diff --git a/evaioTransaction/txStruct.go b/evaioTransaction/txStruct.go
index 7cbfcae..f1c76e4 100644
--- a/evaioTransaction/txStruct.go
+++ b/evaioTransaction/txStruct.go
@@ -12,9 +12,13 @@ type TxStruct struct {
 }
 
 func NewTxStruct(chainID, memo string, accountNumber, sequence int, fee *FeeStruct, message []Message) TxStruct {
-	if fee.Amount[0].Amount == "" {
-		fee.Amount = Coins{}
+	amount := Coins{}
+	for _, coin := range fee.Amount {
+		if coin.Amount != "" {
+			amount = append(amount, coin)
+		}
 	}
+	fee.Amount = amount
 	return TxStruct{
 		AccountNumber: strconv.FormatInt(int64(accountNumber), 10),
 		ChainID:       chainID,
-- 
2.43.0


From 4b398a098ee713ac6ff1d2817bd31d0600562b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:01 +0000
Subject: [PATCH 60/76] fix: btcLikeTxDriver counts and script lengths use the
 network's compact size

---
 btcLikeTxDriver/txStruct.go | 69 ++++++++++++++++++-------------------
 btcLikeTxDriver/utils.go    | 29 ++++++++++++++++
 2 files changed, 63 insertions(+), 35 deletions(-)

diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 6cad74c..8528710 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -59,7 +59,7 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			return nil, errors.New("No witness data for a multisig transaction!")
 		}
 		ret = append(ret, SegWitSymbol, SegWitVersion)
-		ret = append(ret, byte(len(t.Vins)))
+		ret = append(ret, compactSize(len(t.Vins))...)
 		for _, in := range t.Vins {
 			if in.TxID == nil || len(in.TxID) != 32 || in.Vout == nil || len(in.Vout) != 4 {
 				return nil, errors.New("Invalid transaction input!")
@@ -71,14 +71,14 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			ret = append(ret, redeemHash...)
 			ret = append(ret, in.Sequence...)
 		}
-		ret = append(ret, byte(len(t.Vouts)))
+		ret = append(ret, compactSize(len(t.Vouts))...)
 
 		for _, out := range t.Vouts {
 			if out.amount == nil || len(out.amount) != 8 || out.lockScript == nil {
 				return nil, errors.New("Invalid transaction output!")
 			}
 			ret = append(ret, out.amount...)
-			ret = append(ret, byte(len(out.lockScript)))
+			ret = append(ret, compactSize(len(out.lockScript))...)
 			ret = append(ret, out.lockScript...)
 		}
 
@@ -93,7 +93,7 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			}
 		}
 
-		ret = append(ret, byte(len(t.Vins[0].ScriptPubkeySignature)))
+		ret = append(ret, compactSize(len(t.Vins[0].ScriptPubkeySignature))...)
 
 		ret = append(ret, t.Vins[0].ScriptPubkeySignature...)
 	} else {
@@ -102,7 +102,7 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			ret = append(ret, SegWitSymbol, SegWitVersion)
 		}
 
-		ret = append(ret, byte(len(t.Vins)))
+		ret = append(ret, compactSize(len(t.Vins))...)
 
 		for _, in := range t.Vins {
 			if in.TxID == nil || len(in.TxID) != 32 || in.Vout == nil || len(in.Vout) != 4 {
@@ -113,20 +113,20 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			if in.ScriptPubkeySignature == nil {
 				ret = append(ret, 0x00)
 			} else {
-				ret = append(ret, byte(len(in.ScriptPubkeySignature)))
+				ret = append(ret, compactSize(len(in.ScriptPubkeySignature))...)
 				ret = append(ret, in.ScriptPubkeySignature...)
 			}
 			ret = append(ret, in.Sequence...)
 		}
 
-		ret = append(ret, byte(len(t.Vouts)))
+		ret = append(ret, compactSize(len(t.Vouts))...)
 
 		for _, out := range t.Vouts {
 			if out.amount == nil || len(out.amount) != 8 || out.lockScript == nil {
 				return nil, errors.New("Invalid transaction output!")
 			}
 			ret = append(ret, out.amount...)
-			ret = append(ret, byte(len(out.lockScript)))
+			ret = append(ret, compactSize(len(out.lockScript))...)
 			ret = append(ret, out.lockScript...)
 		}
 
@@ -172,13 +172,12 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, index, err := readCompactSize(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -193,20 +192,20 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		tmpTxIn.Vout = txBytes[index : index+4]
 		index += 4
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		var scriptLen int
+		scriptLen, index, err = readCompactSize(txBytes, index)
+		if err != nil {
+			return nil, err
 		}
-		scriptLen := txBytes[index]
-		index++
 		if scriptLen == 0 {
 			tmpTxIn.ScriptPubkeySignature = nil
 		} else {
-			if index+int(scriptLen) > limit {
+			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
-			tmpTxIn.ScriptPubkeySignature = txBytes[index : index+int(scriptLen)]
+			tmpTxIn.ScriptPubkeySignature = txBytes[index : index+scriptLen]
 		}
-		index += int(scriptLen)
+		index += scriptLen
 
 		if index+4 > limit {
 			return nil, errors.New("Invalid transaction data length!")
@@ -217,13 +216,13 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	var numOfVouts int
+	numOfVouts, index, err = readCompactSize(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-	numOfVouts := txBytes[index]
-	index++
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -232,23 +231,23 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		var lockScriptLen int
+		lockScriptLen, index, err = readCompactSize(txBytes, index)
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
 
 	if segwit {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
@@ -322,7 +321,7 @@ func calcSegwitHash(tx Transaction) ([]byte, []byte, []byte, error) {
 
 	for _, vout := range tx.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -375,7 +374,7 @@ func (tx Transaction) calcSegwitBytesForSig(unlockData TxUnlock, txid, vout, seq
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, compactSize(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	sigBytes = append(sigBytes, uint64ToLittleEndianBytes(unlockData.Amount)...)
diff --git a/btcLikeTxDriver/utils.go b/btcLikeTxDriver/utils.go
index 120af24..3506666 100644
--- a/btcLikeTxDriver/utils.go
+++ b/btcLikeTxDriver/utils.go
@@ -38,6 +38,35 @@ func uint32ToLittleEndianBytes(data uint32) []byte {
 	return tmp[:]
 }
 
+//compactSize encode a count or length as the network's compact size
+func compactSize(n int) []byte {
+	if n < 0xfd {
+		return []byte{byte(n)}
+	}
+	if n <= 0xffff {
+		return []byte{0xfd, byte(n), byte(n >> 8)}
+	}
+	return append([]byte{0xfe}, uint32ToLittleEndianBytes(uint32(n))...)
+}
+
+//readCompactSize decode a compact size, return it and the index behind it
+func readCompactSize(data []byte, index int) (int, int, error) {
+	if index+1 > len(data) {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	if data[index] < 0xfd {
+		return int(data[index]), index + 1, nil
+	}
+	if data[index] > 0xfd || index+3 > len(data) {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	n := int(data[index+1]) | int(data[index+2])<<8
+	if n < 0xfd {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	return n, index + 3, nil
+}
+
 //littleEndianBytesToUint32
 func littleEndianBytesToUint32(data []byte) uint32 {
 	return binary.LittleEndian.Uint32(data)
-- 
2.43.0


From 5c0c97524f1866a74f405afd1eb2c6f601dc55ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:01 +0000
Subject: [PATCH 61/76] fix: btcLikeTxDriver pays bech32 destinations

---
 btcLikeTxDriver/btc.go   | 2 +-
 btcLikeTxDriver/txOut.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/btcLikeTxDriver/btc.go b/btcLikeTxDriver/btc.go
index 156dbcd..06dc61e 100644
--- a/btcLikeTxDriver/btc.go
+++ b/btcLikeTxDriver/btc.go
@@ -3,7 +3,7 @@ package btcLikeTxDriver
 const (
 	P2PKHPrefix  = byte(0x6F)
 	P2SHPrefix   = byte(0xC4)
-	Bech32Prefix = "tb1"
+	Bech32Prefix = "tb"
 )
 
 const (
diff --git a/btcLikeTxDriver/txOut.go b/btcLikeTxDriver/txOut.go
index 9d51e8b..091d49b 100644
--- a/btcLikeTxDriver/txOut.go
+++ b/btcLikeTxDriver/txOut.go
@@ -18,7 +18,7 @@ func newTxOutForEmptyTrans(vout []Vout) ([]TxOut, error) {
 
 		if strings.HasPrefix(v.Address, Bech32Prefix+"1") {
 			redeem, err := Bech32Decode(v.Address)
-			if err != nil {
+			if err != nil || len(redeem) != 0x14 {
 				return nil, errors.New("Invalid bech32 type address!")
 			}
 
@@ -26,6 +26,7 @@ func newTxOutForEmptyTrans(vout []Vout) ([]TxOut, error) {
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount, redeem})
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
-- 
2.43.0


From 71440b21b920ca2a2e85041339063832ec116764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:01 +0000
Subject: [PATCH 62/76] fix: btcLikeTxDriver multisig transactions for every
 threshold; keys and hashes ending in 0xae are not multisig

---
 btcLikeTxDriver/multiSig.go    | 20 +++++++++-----------
 btcLikeTxDriver/transaction.go | 12 ++++++++++++
 btcLikeTxDriver/txStruct.go    |  8 ++++----
 3 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/btcLikeTxDriver/multiSig.go b/btcLikeTxDriver/multiSig.go
index 733e00d..5f1cd0c 100644
--- a/btcLikeTxDriver/multiSig.go
+++ b/btcLikeTxDriver/multiSig.go
@@ -49,13 +49,15 @@ func (t Transaction) isMultiSig() bool {
 	if len(t.Vins) != 1 {
 		return false
 	}
-	if t.Vins[0].ScriptPubkeySignature == nil {
-		return false
-	}
-	if t.Vins[0].ScriptPubkeySignature[len(t.Vins[0].ScriptPubkeySignature)-1] != OpCheckMultiSig {
+	return isMultiSigScript(t.Vins[0].ScriptPubkeySignature)
+}
+
+func isMultiSigScript(script []byte) bool {
+	limit := len(script)
+	if limit < 3 || script[limit-1] != OpCheckMultiSig {
 		return false
 	}
-	return true
+	return script[0] >= OpCode_1 && script[0] <= script[limit-2] && script[limit-2] < OpCode_1+16
 }
 
 func isMultiSig(lockScript, redeemScript string) bool {
@@ -67,7 +69,7 @@ func isMultiSig(lockScript, redeemScript string) bool {
 	if err != nil {
 		return false
 	}
-	if !(lockBytes[0] == OpCodeHash160 && lockBytes[1] == 0x14 || lockBytes[22] == OpCodeEqual) {
+	if checkScriptType(lockBytes) != TypeP2SH {
 		return false
 	}
 
@@ -76,11 +78,7 @@ func isMultiSig(lockScript, redeemScript string) bool {
 		return false
 	}
 
-	if len(redeemBytes) == 0 || redeemBytes[len(redeemBytes)-1] != OpCheckMultiSig {
-		return false
-	}
-	return true
-
+	return isMultiSigScript(redeemBytes)
 }
 
 func calcRedeemHash(redeem []byte) []byte {
diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index e82938e..f2ff63a 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -176,8 +176,20 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 
 	if isMultiSig(unlockData[0].LockScript, unlockData[0].RedeemScript) {
 		redeemBytes, _ := hex.DecodeString(unlockData[0].RedeemScript)
+		if len(emptyTrans.Vins) != 1 {
+			return "", errors.New("Only one multisig input is supported!")
+		}
+		if len(sigPub) != int(redeemBytes[0]-OpCode_1)+1 {
+			return "", errors.New("The number of signatures and the multisig script are not match!")
+		}
 		emptyTrans.Vins[0].ScriptPubkeySignature = redeemBytes
 		for i := 0; i < len(sigPub); i++ {
+			if len(sigPub[i].Signature) != 64 {
+				return "", errors.New("Invalid signature data!")
+			}
+			if len(sigPub[i].Pubkey) != 33 {
+				return "", errors.New("Invalid pubkey data!")
+			}
 			emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
 		}
 	} else {
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 8528710..6d17855 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -82,7 +82,7 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			ret = append(ret, out.lockScript...)
 		}
 
-		ret = append(ret, byte(0x04), 0x00)
+		ret = append(ret, byte(len(t.Witness)+2), 0x00)
 		for _, w := range t.Witness {
 			if w.Signature == nil {
 				return nil, errors.New("Miss signature data for a multisig transaction!")
@@ -296,11 +296,11 @@ func isScriptHash(script []byte) bool {
 }
 
 func checkScriptType(script []byte) int {
-	if script[0] == OpCodeDup && script[1] == OpCodeHash160 && script[2] == 0x14 && script[23] == OpCodeEqualVerify && script[24] == OpCodeCheckSig {
+	if len(script) == 25 && script[0] == OpCodeDup && script[1] == OpCodeHash160 && script[2] == 0x14 && script[23] == OpCodeEqualVerify && script[24] == OpCodeCheckSig {
 		return TypeP2PKH
-	} else if script[0] == OpCodeHash160 && script[1] == 0x14 && script[22] == OpCodeEqual {
+	} else if len(script) == 23 && script[0] == OpCodeHash160 && script[1] == 0x14 && script[22] == OpCodeEqual {
 		return TypeP2SH
-	} else if script[0] == 0x00 && script[1] == 0x14 {
+	} else if len(script) == 22 && script[0] == 0x00 && script[1] == 0x14 {
 		return TypeBech32
 	} else {
 		return -1
-- 
2.43.0


From 617350e55963eb70c4229de991170d35ef768bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:24 +0000
Subject: [PATCH 63/76] fix: btcLikeTxDriver signs and combines by the type of
 each lock script, every segwit input included, and refuses data that does not
 fit

---
 btcLikeTxDriver/transaction.go | 37 +++++++++++++++++++++++-----------
 btcLikeTxDriver/txStruct.go    |  8 +++++---
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index f2ff63a..4ba5a00 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -77,6 +77,10 @@ func SignEmptyRawTransaction(txHex string, unlockData []TxUnlock) (string, error
 		return "", err
 	}
 
+	if emptyTrans.Witness != nil {
+		return "", errors.New("The transaction is not empty!")
+	}
+
 	hashes, err := emptyTrans.getHashesForSig(unlockData)
 	if err != nil {
 		return "", err
@@ -101,7 +105,7 @@ func SignEmptyRawTransaction(txHex string, unlockData []TxUnlock) (string, error
 				emptyTrans.Vins[i].ScriptPubkeySignature = nil
 			} else {
 				redeemScript, err := hex.DecodeString(unlockData[i].RedeemScript)
-				if err != nil {
+				if err != nil || checkScriptType(redeemScript) != TypeBech32 {
 					return "", errors.New("Invalid redeem script!")
 				}
 				redeemScript = append([]byte{byte(len(redeemScript))}, redeemScript...)
@@ -112,8 +116,8 @@ func SignEmptyRawTransaction(txHex string, unlockData []TxUnlock) (string, error
 				for j := 0; j < i; j++ {
 					emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{})
 				}
-				emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
 			}
+			emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
 
 		} else {
 			emptyTrans.Vins[i].ScriptPubkeySignature = sigPub[i].encodeToScript(SigHashAll)
@@ -174,6 +178,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if emptyTrans.Witness != nil {
+		return "", errors.New("The transaction is not empty!")
+	}
+
 	if isMultiSig(unlockData[0].LockScript, unlockData[0].RedeemScript) {
 		redeemBytes, _ := hex.DecodeString(unlockData[0].RedeemScript)
 		if len(emptyTrans.Vins) != 1 {
@@ -193,6 +201,9 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 			emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
 		}
 	} else {
+		if len(emptyTrans.Vins) != len(sigPub) {
+			return "", errors.New("The number of transaction inputs and the signatures are not match!")
+		}
 		for i := 0; i < len(emptyTrans.Vins); i++ {
 
 			if sigPub[i].Signature == nil || len(sigPub[i].Signature) != 64 {
@@ -202,18 +213,20 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 				return "", errors.New("Invalid pubkey data!")
 			}
 
-			// bech32 branch
-			if unlockData[i].RedeemScript == "" && strings.Index(unlockData[i].LockScript, "0014") == 0 {
-				unlockData[i].RedeemScript = unlockData[i].LockScript
-				unlockData[i].LockScript = "00"
+			lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
+			if err != nil {
+				return "", errors.New("Invalid lock script!")
 			}
+			scriptType := checkScriptType(lockBytes)
 
-			if unlockData[i].RedeemScript == "" {
+			if scriptType == TypeP2PKH {
 
 				emptyTrans.Vins[i].ScriptPubkeySignature = sigPub[i].encodeToScript(SigHashAll)
 				if emptyTrans.Witness != nil {
 					emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{})
 				}
+			} else if scriptType != TypeP2SH && scriptType != TypeBech32 {
+				return "", errors.New("Unknown type of lockscript!")
 			} else {
 				if emptyTrans.Witness == nil {
 					for j := 0; j < i; j++ {
@@ -221,15 +234,15 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 					}
 				}
 				emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
-				if unlockData[i].RedeemScript == "" {
-					return "", errors.New("Missing redeem script for a P2SH input!")
-				}
 
-				if unlockData[i].LockScript == "00" {
+				if scriptType == TypeBech32 {
 					emptyTrans.Vins[i].ScriptPubkeySignature = nil
 				} else {
+					if unlockData[i].RedeemScript == "" {
+						return "", errors.New("Missing redeem script for a P2SH input!")
+					}
 					redeem, err := hex.DecodeString(unlockData[i].RedeemScript)
-					if err != nil {
+					if err != nil || checkScriptType(redeem) != TypeBech32 {
 						return "", errors.New("Invlalid redeem script!")
 					}
 					redeem = append([]byte{byte(len(redeem))}, redeem...)
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 6d17855..2a65674 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -332,7 +332,7 @@ func calcSegwitHash(tx Transaction) ([]byte, []byte, []byte, error) {
 
 func genScriptCodeFromRedeemScript(redeem string) ([]byte, error) {
 	redeemBytes, err := hex.DecodeString(redeem)
-	if err != nil {
+	if err != nil || len(redeemBytes) < 2 {
 		return nil, errors.New("Invalid redeem script!")
 	}
 
@@ -391,6 +391,7 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock) ([][]byte, error) {
 	if t.Vins == nil || len(t.Vins) != len(unlockData) {
 		return nil, errors.New("The number of Keys and UTXOs are not match!")
 	}
+	t.Witness = nil
 
 	for i := 0; i < len(unlockData); i++ {
 		sigBytes := []byte{}
@@ -408,10 +409,11 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock) ([][]byte, error) {
 
 		scriptType := checkScriptType(lockBytes)
 		if scriptType == TypeP2SH || scriptType == TypeBech32 {
+			unlock := unlockData[i]
 			if scriptType == TypeBech32 {
-				unlockData[i].RedeemScript = unlockData[i].LockScript
+				unlock.RedeemScript = unlock.LockScript
 			}
-			sigBytes, err = t.calcSegwitBytesForSig(unlockData[i], t.Vins[i].TxID, t.Vins[i].Vout, t.Vins[i].Sequence)
+			sigBytes, err = t.calcSegwitBytesForSig(unlock, t.Vins[i].TxID, t.Vins[i].Vout, t.Vins[i].Sequence)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 3660198d82f9ba4643ca4d332e6c0dac47866c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:24 +0000
Subject: [PATCH 64/76] fix: btcLikeTxDriver witness signatures are strict DER
 and malformed ones are refused without a crash

---
 btcLikeTxDriver/signaturepubkey.go |  40 ++++++------
 btcLikeTxDriver/txStruct.go        |   6 +-
 btcLikeTxDriver/witness.go         | 101 ++---------------------------
 3 files changed, 31 insertions(+), 116 deletions(-)

diff --git a/btcLikeTxDriver/signaturepubkey.go b/btcLikeTxDriver/signaturepubkey.go
index 9b87b07..0b587a4 100644
--- a/btcLikeTxDriver/signaturepubkey.go
+++ b/btcLikeTxDriver/signaturepubkey.go
@@ -64,7 +64,7 @@ func (sp SignaturePubkey) encodeToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -75,7 +75,7 @@ func (sp SignaturePubkey) encodeToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
@@ -142,22 +142,23 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, error) {
 	rLen := script[index]
 	index++
 
-	if rLen > 0x21 {
+	if rLen == 0 || rLen > 0x21 {
 		return nil, errors.New("Invalid r length!")
 	}
-	if rLen == 0x21 {
-		if index+2 > limit {
-			return nil, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, errors.New("Invalid signature data!")
-		}
+	if index+int(rLen) > limit {
+		return nil, errors.New("Invalid script data!")
+	}
+	if script[index] == 0x00 && rLen > 1 && script[index+1]&0x80 != 0x80 {
+		return nil, errors.New("Invalid signature data!")
+	}
+	if script[index]&0x80 == 0x80 || (rLen == 0x21 && script[index] != 0x00) {
+		return nil, errors.New("Invalid signature data!")
 	}
 
 	if index+int(rLen) > limit {
 		return nil, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
@@ -182,16 +183,17 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, error) {
 	sLen := script[index]
 	index++
 
-	if sLen > 0x21 {
+	if sLen == 0 || sLen > 0x21 {
 		return nil, errors.New("Invalid s length!")
 	}
-	if sLen == 0x21 {
-		if index+2 > limit {
-			return nil, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, errors.New("Invalid signature data!")
-		}
+	if index+int(sLen) > limit {
+		return nil, errors.New("Invalid script data!")
+	}
+	if script[index] == 0x00 && sLen > 1 && script[index+1]&0x80 != 0x80 {
+		return nil, errors.New("Invalid signature data!")
+	}
+	if script[index]&0x80 == 0x80 || (sLen == 0x21 && script[index] != 0x00) {
+		return nil, errors.New("Invalid signature data!")
 	}
 
 	if index+int(sLen) > limit {
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 2a65674..db6cbc0 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -265,13 +265,17 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 				if index+int(length)+1+34 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
-				witness, _ := decodeFromSegwitBytes(txBytes[index : index+int(length)+1+34])
+				witness, err := decodeFromSegwitBytes(txBytes[index : index+int(length)+1+34])
+				if err != nil {
+					return nil, err
+				}
 				rawTx.Witness = append(rawTx.Witness, *witness)
 
 				index += int(length) + 1 + 34
 			} else {
 				//TODO
 				//for multisig
+				return nil, errors.New("Unsupported witness data!")
 			}
 		}
 	}
diff --git a/btcLikeTxDriver/witness.go b/btcLikeTxDriver/witness.go
index 36d9a11..d055ce0 100644
--- a/btcLikeTxDriver/witness.go
+++ b/btcLikeTxDriver/witness.go
@@ -1,109 +1,18 @@
 package btcLikeTxDriver
 
-import "errors"
-
 type TxWitness struct {
 	Signature []byte
 	Pubkey    []byte
 }
 
 func (w TxWitness) encodeToScript(sigType byte) []byte {
-	r := w.Signature[:32]
-	s := w.Signature[32:]
-
-	if r[0]&0x80 == 0x80 {
-		r = append([]byte{0x00}, r...)
-	}
-	if s[0]&0x80 == 0x80 {
-		s = append([]byte{0}, s...)
-	}
-
-	r = append([]byte{byte(len(r))}, r...)
-	r = append([]byte{0x02}, r...)
-	s = append([]byte{byte(len(s))}, s...)
-	s = append([]byte{0x02}, s...)
-
-	rs := append(r, s...)
-	rs = append([]byte{byte(len(rs))}, rs...)
-	rs = append(rs, sigType)
-	rs = append([]byte{0x30}, rs...)
-	rs = append([]byte{byte(len(rs))}, rs...)
-
-	pub := append([]byte{byte(len(w.Pubkey))}, w.Pubkey...)
-
-	return append(rs, pub...)
+	return SignaturePubkey{w.Signature, w.Pubkey}.encodeToScript(sigType)
 }
 
 func decodeFromSegwitBytes(script []byte) (*TxWitness, error) {
-	var ret TxWitness
-	index := 0
-	sigLen := script[index]
-	index++
-
-	if script[index] != 0x30 {
-		return nil, errors.New("Invalid signature data!")
-	}
-	index++
-
-	rsLen := script[index]
-	index++
-
-	if script[index] != 0x02 {
-		return nil, errors.New("Invalid signature data!")
-	}
-	index++
-
-	rLen := script[index]
-	index++
-
-	if rLen == 0x21 {
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, errors.New("Invalid signature data!")
-		}
-		index++
-	}
-
-	ret.Signature = script[index : index+32]
-	index += 32
-
-	if script[index] != 0x02 {
-		return nil, errors.New("Invalid signature data!")
-	}
-	index++
-
-	sLen := script[index]
-	index++
-
-	if sLen == 0x21 {
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, errors.New("Invalid signature data!")
-		}
-		index++
-	}
-
-	ret.Signature = append(ret.Signature, script[index:index+32]...)
-	index += 32
-
-	if script[index] != SigHashAll {
-		return nil, errors.New("Only sigAll supported!")
-	}
-	index++
-
-	pubLen := script[index]
-	index++
-	if pubLen != 0x21 {
-		return nil, errors.New("Only compressed pubkey is supported!")
-	}
-
-	ret.Pubkey = script[index : index+33]
-	index += 33
-
-	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) || (sigLen+pubLen+2 != byte(len(script))) {
-		return nil, errors.New("Invalid transaction data!")
-	}
-
-	if index != len(script) {
-		return nil, errors.New("Invalid transaction data!")
+	sp, err := decodeFromScriptBytes(script)
+	if err != nil {
+		return nil, err
 	}
-	return &ret, nil
+	return &TxWitness{sp.Signature, sp.Pubkey}, nil
 }
-- 
2.43.0


From 274516a04f67111bc7100c8d9439ba892ff0f98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:16 +0000
Subject: [PATCH 65/76] fix: btcLikeTxDriver verification demands the key and
 script that own each coin, leaves the unlock data alone and never crashes

---
 btcLikeTxDriver/transaction.go | 68 +++++++++++++++++++++++-----------
 btcLikeTxDriver/txStruct.go    |  7 +++-
 2 files changed, 51 insertions(+), 24 deletions(-)

diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index 4ba5a00..b9fec70 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -1,9 +1,11 @@
 package btcLikeTxDriver
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
-	"strings"
+
+	"github.com/blocktree/go-owcrypt"
 )
 
 type Vin struct {
@@ -274,36 +276,58 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock) bool {
 		return false
 	}
 
+	checks := append([]TxUnlock{}, unlockData...)
 	var sigAndPub []SignaturePubkey
-	if signedTrans.Witness == nil {
-		for _, sp := range signedTrans.Vins {
-			tmp, err := decodeFromScriptBytes(sp.ScriptPubkeySignature)
-			if err != nil {
+	for i := 0; i < len(signedTrans.Vins); i++ {
+		lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
+		if err != nil {
+			return false
+		}
+		script := signedTrans.Vins[i].ScriptPubkeySignature
+		witness := TxWitness{}
+		if signedTrans.Witness != nil {
+			witness = signedTrans.Witness[i]
+		}
+
+		var sp SignaturePubkey
+		var owner []byte
+		switch checkScriptType(lockBytes) {
+		case TypeP2PKH:
+			tmp, err := decodeFromScriptBytes(script)
+			if err != nil || witness.Signature != nil {
 				return false
 			}
-			sigAndPub = append(sigAndPub, *tmp)
-		}
-	} else {
-		for i := 0; i < len(signedTrans.Vins); i++ {
-			if signedTrans.Witness[i].Signature == nil {
-				tmp, err := decodeFromScriptBytes(signedTrans.Vins[i].ScriptPubkeySignature)
-				if err != nil {
-					return false
-				}
-				sigAndPub = append(sigAndPub, *tmp)
-			} else {
-				sigAndPub = append(sigAndPub, SignaturePubkey{signedTrans.Witness[i].Signature, signedTrans.Witness[i].Pubkey})
-				if strings.Index(unlockData[i].LockScript, "0014") == 0 {
-					continue
-				}
-				unlockData[i].RedeemScript = hex.EncodeToString(signedTrans.Vins[i].ScriptPubkeySignature[1:])
+			sp = *tmp
+			owner = lockBytes[3:23]
+		case TypeBech32:
+			if witness.Signature == nil || len(script) != 0 {
+				return false
 			}
+			sp = SignaturePubkey{witness.Signature, witness.Pubkey}
+			owner = lockBytes[2:]
+		case TypeP2SH:
+			if witness.Signature == nil || len(script) != 23 || script[0] != 22 || checkScriptType(script[1:]) != TypeBech32 {
+				return false
+			}
+			redeem := script[1:]
+			if !bytes.Equal(owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22]) {
+				return false
+			}
+			checks[i].RedeemScript = hex.EncodeToString(redeem)
+			sp = SignaturePubkey{witness.Signature, witness.Pubkey}
+			owner = redeem[2:]
+		default:
+			return false
+		}
+		if !bytes.Equal(owcrypt.Hash(sp.Pubkey, 0, owcrypt.HASH_ALG_HASH160), owner) {
+			return false
 		}
+		sigAndPub = append(sigAndPub, sp)
 	}
 
 	signedTrans.Witness = nil
 
-	hashes, err := signedTrans.getHashesForSig(unlockData)
+	hashes, err := signedTrans.getHashesForSig(checks)
 	if err != nil {
 		return false
 	}
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index db6cbc0..a559f7f 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -446,8 +446,11 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock) ([][]byte, error) {
 func verifyHashes(hashes [][]byte, sigPub []SignaturePubkey) bool {
 
 	for i := 0; i < len(sigPub); i++ {
-		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-		if owcrypt.Verify(pubkey, nil, hashes[i], sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) != 65 {
+			return false
+		}
+		if owcrypt.Verify(pubkey[1:], nil, hashes[i], sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 			return false
 		}
 	}
-- 
2.43.0


From e1dbe2daaa60ca15a33e96dbc008dafd031c8b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:43 +0000
Subject: [PATCH 66/76] fix: zencash outputs name the block by a 32-byte hash
 and the height as the script number it is

---
 zencashTransaction/txOut.go | 42 +++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/zencashTransaction/txOut.go b/zencashTransaction/txOut.go
index 1a32386..36649aa 100644
--- a/zencashTransaction/txOut.go
+++ b/zencashTransaction/txOut.go
@@ -1,8 +1,8 @@
 package zencashTransaction
 
 import (
-	"encoding/binary"
 	"errors"
+	"math"
 	"strings"
 )
 
@@ -24,20 +24,13 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 	p2wpkhPrefixByte = addressPrefix.P2WPKHPrefix
 
 	blockHashBytes, err := reverseHexToBytes(blockHash)
-	if err != nil {
+	if err != nil || len(blockHashBytes) != 32 {
 		return nil, errors.New("Invalid block hash!")
 	}
-	tmp := make([]byte, 8)
-	binary.BigEndian.PutUint64(tmp, blockHeight)
-	zerocount := 0
-	for _, v := range tmp {
-		if v == 0 {
-			zerocount++
-		} else {
-			break
-		}
+	if blockHeight > math.MaxInt32 {
+		return nil, errors.New("Invalid block height!")
 	}
-	blockHeightBytes := reverseBytes(tmp[zerocount:])
+	blockHeightPush := pushBlockHeight(blockHeight)
 
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
@@ -70,15 +63,13 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 			hash = append([]byte{OpCodeDup}, hash...)
 			hash = append(hash, 0x20)
 			hash = append(hash, blockHashBytes...)
-			hash = append(hash, byte(len(blockHeightBytes)))
-			hash = append(hash, blockHeightBytes...)
+			hash = append(hash, blockHeightPush...)
 			hash = append(hash, OpCodeCheckBlockAtHeight)
 		} else if byteArrayCompare(prefix, p2wpkhPrefixByte) {
 			hash = append(hash, OpCodeEqual)
 			hash = append(hash, 0x20)
 			hash = append(hash, blockHashBytes...)
-			hash = append(hash, byte(len(blockHeightBytes)))
-			hash = append(hash, blockHeightBytes...)
+			hash = append(hash, blockHeightPush...)
 			hash = append(hash, OpCodeCheckBlockAtHeight)
 		} else {
 			return nil, errors.New("Invalid address to send!")
@@ -89,6 +80,25 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 	return ret, nil
 }
 
+// pushBlockHeight is the minimal script push of a block height: OP_0 to OP_16 for small heights,
+// otherwise a script number, whose highest bit is its sign
+func pushBlockHeight(height uint64) []byte {
+	if height == 0 {
+		return []byte{0x00}
+	}
+	if height <= 16 {
+		return []byte{OpCode_1 + byte(height) - 1}
+	}
+	num := []byte{}
+	for ; height > 0; height >>= 8 {
+		num = append(num, byte(height))
+	}
+	if num[len(num)-1]&0x80 != 0 {
+		num = append(num, 0x00)
+	}
+	return append([]byte{byte(len(num))}, num...)
+}
+
 func (out TxOut) toBytes() ([]byte, error) {
 	if out.amount == nil || len(out.amount) != 8 {
 		return nil, errors.New("Invalid amount for a transaction output!")
-- 
2.43.0


From 7bcca0cbc88e977c95d167d0880efa0ace51122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:09 +0000
Subject: [PATCH 67/76] fix: zencash digests refuse lock scripts other than
 P2PKH

---
 zencashTransaction/txHash.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index 7c1651b..14097eb 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -109,6 +109,11 @@ func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, e
 	return nil, nil, 0, errors.New("Unknown type of lockScript!")
 }
 
+// isPayToPubkeyHash tells whether the script pays to a pubkey hash, whatever block reference follows
+func isPayToPubkeyHash(script []byte) bool {
+	return len(script) >= 25 && script[0] == OpCodeDup && script[1] == OpCodeHash160 && script[2] == 0x14 && script[23] == OpCodeEqualVerify && script[24] == OpCodeCheckSig
+}
+
 func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	hashPrevouts := []byte{}
 	hashSequence := []byte{}
@@ -261,7 +266,7 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 		//	return nil, err
 		//}
 		lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
-		if err != nil || len(lockBytes) < 25 {
+		if err != nil || !isPayToPubkeyHash(lockBytes) {
 			return nil, errors.New("Invalid scriptPubkey data!")
 		}
 
-- 
2.43.0


From 7417f0b1e2d3de46adeb62d3e0148c56854b7d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:07 +0000
Subject: [PATCH 68/76] fix: output scripts of 253 bytes and more keep their
 length when a transaction is encoded, hashed and decoded

---
 bitcoincashTransaction/txHash.go   |  2 +-
 bitcoincashTransaction/txOut.go    |  2 +-
 bitcoincashTransaction/txStruct.go | 10 +++++-----
 bitcoinsvTransaction/txHash.go     |  2 +-
 bitcoinsvTransaction/txOut.go      |  2 +-
 bitcoinsvTransaction/txStruct.go   | 10 +++++-----
 btcTransaction/txHash.go           |  2 +-
 btcTransaction/txOut.go            |  2 +-
 btcTransaction/txStruct.go         | 10 +++++-----
 cxcTransaction/txHash.go           |  2 +-
 cxcTransaction/txOut.go            |  2 +-
 cxcTransaction/txStruct.go         | 10 +++++-----
 hcTransaction/txHash.go            |  2 +-
 hcTransaction/txOut.go             |  2 +-
 hcTransaction/txStruct.go          | 10 +++++-----
 omniTransaction/txHash.go          |  2 +-
 omniTransaction/txOut.go           |  2 +-
 omniTransaction/txStruct.go        | 10 +++++-----
 zencashTransaction/txHash.go       |  2 +-
 zencashTransaction/txOut.go        |  2 +-
 zencashTransaction/txStruct.go     | 10 +++++-----
 21 files changed, 49 insertions(+), 49 deletions(-)

diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index 72e191e..7e6e255 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -118,7 +118,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
diff --git a/bitcoincashTransaction/txOut.go b/bitcoincashTransaction/txOut.go
index c9af95c..aaabfc5 100644
--- a/bitcoincashTransaction/txOut.go
+++ b/bitcoincashTransaction/txOut.go
@@ -101,7 +101,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, compactSize(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index 6216dc0..7be641f 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -264,18 +264,18 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		if index+1 > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		lockScriptLen, used := readCompactSize(txBytes[index:])
+		index += used
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index 97b95ab..aa27e50 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -119,7 +119,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
diff --git a/bitcoinsvTransaction/txOut.go b/bitcoinsvTransaction/txOut.go
index 19501db..6ce9c17 100644
--- a/bitcoinsvTransaction/txOut.go
+++ b/bitcoinsvTransaction/txOut.go
@@ -101,7 +101,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, compactSize(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index 29308d5..4e39cc0 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -264,18 +264,18 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		if index+1 > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		lockScriptLen, used := readCompactSize(txBytes[index:])
+		index += used
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
diff --git a/btcTransaction/txHash.go b/btcTransaction/txHash.go
index 43762df..46173d5 100644
--- a/btcTransaction/txHash.go
+++ b/btcTransaction/txHash.go
@@ -122,7 +122,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
diff --git a/btcTransaction/txOut.go b/btcTransaction/txOut.go
index e262d51..66ce927 100644
--- a/btcTransaction/txOut.go
+++ b/btcTransaction/txOut.go
@@ -76,7 +76,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, compactSize(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index 0a48d73..3a3c182 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -243,18 +243,18 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		if index+1 > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		lockScriptLen, used := readCompactSize(txBytes[index:])
+		index += used
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
diff --git a/cxcTransaction/txHash.go b/cxcTransaction/txHash.go
index 2a92b11..a309c03 100644
--- a/cxcTransaction/txHash.go
+++ b/cxcTransaction/txHash.go
@@ -121,7 +121,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
diff --git a/cxcTransaction/txOut.go b/cxcTransaction/txOut.go
index b22d3ed..d1d7e2a 100644
--- a/cxcTransaction/txOut.go
+++ b/cxcTransaction/txOut.go
@@ -72,7 +72,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, compactSize(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index 115ddfb..b67c023 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -274,18 +274,18 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		if index+1 > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		lockScriptLen, used := readCompactSize(txBytes[index:])
+		index += used
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
diff --git a/hcTransaction/txHash.go b/hcTransaction/txHash.go
index 97d2828..9f34661 100644
--- a/hcTransaction/txHash.go
+++ b/hcTransaction/txHash.go
@@ -122,7 +122,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
diff --git a/hcTransaction/txOut.go b/hcTransaction/txOut.go
index 7f5017c..3361793 100644
--- a/hcTransaction/txOut.go
+++ b/hcTransaction/txOut.go
@@ -72,7 +72,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, compactSize(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index a6e921a..b8a8cff 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -243,18 +243,18 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		if index+1 > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		lockScriptLen, used := readCompactSize(txBytes[index:])
+		index += used
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
diff --git a/omniTransaction/txHash.go b/omniTransaction/txHash.go
index 3fba31e..dfdcf4f 100644
--- a/omniTransaction/txHash.go
+++ b/omniTransaction/txHash.go
@@ -121,7 +121,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
diff --git a/omniTransaction/txOut.go b/omniTransaction/txOut.go
index 9cae4b6..b177c32 100644
--- a/omniTransaction/txOut.go
+++ b/omniTransaction/txOut.go
@@ -75,7 +75,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, compactSize(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index f090cfb..3b36c2e 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -243,18 +243,18 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		if index+1 > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		lockScriptLen, used := readCompactSize(txBytes[index:])
+		index += used
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index 14097eb..0902250 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -127,7 +127,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, compactSize(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
diff --git a/zencashTransaction/txOut.go b/zencashTransaction/txOut.go
index 36649aa..94c23f6 100644
--- a/zencashTransaction/txOut.go
+++ b/zencashTransaction/txOut.go
@@ -109,7 +109,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, compactSize(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index d9b115e..c64bb23 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -243,18 +243,18 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		if index+1 > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		lockScriptLen, used := readCompactSize(txBytes[index:])
+		index += used
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
-- 
2.43.0


From a25e4cda0941f5efb0246e76e910d5ba7a27f7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:21 +0000
Subject: [PATCH 69/76] fix: omni payloads over 75 bytes are pushed whole, and
 unusable freeze addresses and types are refused

---
 bitcoincashTransaction/txOmni.go    | 23 +++++++++++++++++++----
 bitcoincashTransaction/txOut.go     |  6 +++++-
 bitcoincashTransaction/txPayload.go |  4 ++--
 bitcoinsvTransaction/txOmni.go      | 23 +++++++++++++++++++----
 bitcoinsvTransaction/txOut.go       |  6 +++++-
 bitcoinsvTransaction/txPayload.go   |  4 ++--
 omniTransaction/txOmni.go           | 23 +++++++++++++++++++----
 omniTransaction/txOut.go            |  6 +++++-
 omniTransaction/txPayload.go        |  4 ++--
 9 files changed, 78 insertions(+), 21 deletions(-)

diff --git a/bitcoincashTransaction/txOmni.go b/bitcoincashTransaction/txOmni.go
index 53192ee..9e5e604 100644
--- a/bitcoincashTransaction/txOmni.go
+++ b/bitcoincashTransaction/txOmni.go
@@ -1,5 +1,7 @@
 package bitcoincashTransaction
 
+import "errors"
+
 type OmniStruct struct {
 	TxType     int
 	PropertyId uint32
@@ -9,7 +11,7 @@ type OmniStruct struct {
 	Address    string
 }
 
-func (os OmniStruct) getPayload() []byte {
+func (os OmniStruct) getPayload() ([]byte, error) {
 	payload := []byte{}
 	switch os.TxType {
 	case SimpleSend:
@@ -49,11 +51,24 @@ func (os OmniStruct) getPayload() []byte {
 		payload = createPayloadUnfreezeTokens(os.PropertyId, os.Amount, os.Address)
 		break
 	default:
-		return nil
+		return nil, errors.New("Unknown omni transaction type!")
+	}
+	if payload == nil {
+		return nil, errors.New("Invalid omni transaction data!")
 	}
 
 	payload = append(OmniPrefix[:], payload...)
-	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
-	return payload
+	script := []byte{OpReturn}
+	if len(payload) >= int(OpPushData1) {
+		if len(payload) > 0xFF {
+			script = append(script, OpPushData2)
+			script = append(script, uint16ToLittleEndianBytes(uint16(len(payload)))...)
+		} else {
+			script = append(script, OpPushData1, byte(len(payload)))
+		}
+	} else {
+		script = append(script, byte(len(payload)))
+	}
+	return append(script, payload...), nil
 }
 
diff --git a/bitcoincashTransaction/txOut.go b/bitcoincashTransaction/txOut.go
index aaabfc5..48c1172 100644
--- a/bitcoincashTransaction/txOut.go
+++ b/bitcoincashTransaction/txOut.go
@@ -85,7 +85,11 @@ func newOmniTxOutForEmptyTrans(vout []Vout, omniDetail OmniStruct, addressPrefix
 		ret = append(ret, TxOut{amount, hash})
 	}
 
-	ret = append(ret, TxOut{uint64ToLittleEndianBytes(0), omniDetail.getPayload()})
+	payload, err := omniDetail.getPayload()
+	if err != nil {
+		return nil, err
+	}
+	ret = append(ret, TxOut{uint64ToLittleEndianBytes(0), payload})
 
 	return ret, nil
 }
diff --git a/bitcoincashTransaction/txPayload.go b/bitcoincashTransaction/txPayload.go
index 662f01b..f3fea2c 100644
--- a/bitcoincashTransaction/txPayload.go
+++ b/bitcoincashTransaction/txPayload.go
@@ -146,7 +146,7 @@ func createPayloadFreezeTokens(propertyID uint32, amount uint64, address string)
 	ret = append(ret, uint64ToBigEndianBytes(amount)...)
 
 	pre, addressByte, err := DecodeCheck(address)
-	if err != nil {
+	if err != nil || len(pre) != 1 || len(addressByte) != 0x14 {
 		return nil
 	}
 	ret = append(ret, pre...)
@@ -167,7 +167,7 @@ func createPayloadUnfreezeTokens(propertyID uint32, amount uint64, address strin
 	ret = append(ret, uint64ToBigEndianBytes(amount)...)
 
 	pre, addressByte, err := DecodeCheck(address)
-	if err != nil {
+	if err != nil || len(pre) != 1 || len(addressByte) != 0x14 {
 		return nil
 	}
 	ret = append(ret, pre...)
diff --git a/bitcoinsvTransaction/txOmni.go b/bitcoinsvTransaction/txOmni.go
index 8e70e79..c619f0f 100644
--- a/bitcoinsvTransaction/txOmni.go
+++ b/bitcoinsvTransaction/txOmni.go
@@ -1,5 +1,7 @@
 package bitcoinsvTransaction
 
+import "errors"
+
 type OmniStruct struct {
 	TxType     int
 	PropertyId uint32
@@ -9,7 +11,7 @@ type OmniStruct struct {
 	Address    string
 }
 
-func (os OmniStruct) getPayload() []byte {
+func (os OmniStruct) getPayload() ([]byte, error) {
 	payload := []byte{}
 	switch os.TxType {
 	case SimpleSend:
@@ -49,11 +51,24 @@ func (os OmniStruct) getPayload() []byte {
 		payload = createPayloadUnfreezeTokens(os.PropertyId, os.Amount, os.Address)
 		break
 	default:
-		return nil
+		return nil, errors.New("Unknown omni transaction type!")
+	}
+	if payload == nil {
+		return nil, errors.New("Invalid omni transaction data!")
 	}
 
 	payload = append(OmniPrefix[:], payload...)
-	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
-	return payload
+	script := []byte{OpReturn}
+	if len(payload) >= int(OpPushData1) {
+		if len(payload) > 0xFF {
+			script = append(script, OpPushData2)
+			script = append(script, uint16ToLittleEndianBytes(uint16(len(payload)))...)
+		} else {
+			script = append(script, OpPushData1, byte(len(payload)))
+		}
+	} else {
+		script = append(script, byte(len(payload)))
+	}
+	return append(script, payload...), nil
 }
 
diff --git a/bitcoinsvTransaction/txOut.go b/bitcoinsvTransaction/txOut.go
index 6ce9c17..25f3111 100644
--- a/bitcoinsvTransaction/txOut.go
+++ b/bitcoinsvTransaction/txOut.go
@@ -85,7 +85,11 @@ func newOmniTxOutForEmptyTrans(vout []Vout, omniDetail OmniStruct, addressPrefix
 		ret = append(ret, TxOut{amount, hash})
 	}
 
-	ret = append(ret, TxOut{uint64ToLittleEndianBytes(0), omniDetail.getPayload()})
+	payload, err := omniDetail.getPayload()
+	if err != nil {
+		return nil, err
+	}
+	ret = append(ret, TxOut{uint64ToLittleEndianBytes(0), payload})
 
 	return ret, nil
 }
diff --git a/bitcoinsvTransaction/txPayload.go b/bitcoinsvTransaction/txPayload.go
index fa2ef56..f876cc8 100644
--- a/bitcoinsvTransaction/txPayload.go
+++ b/bitcoinsvTransaction/txPayload.go
@@ -146,7 +146,7 @@ func createPayloadFreezeTokens(propertyID uint32, amount uint64, address string)
 	ret = append(ret, uint64ToBigEndianBytes(amount)...)
 
 	pre, addressByte, err := DecodeCheck(address)
-	if err != nil {
+	if err != nil || len(pre) != 1 || len(addressByte) != 0x14 {
 		return nil
 	}
 	ret = append(ret, pre...)
@@ -167,7 +167,7 @@ func createPayloadUnfreezeTokens(propertyID uint32, amount uint64, address strin
 	ret = append(ret, uint64ToBigEndianBytes(amount)...)
 
 	pre, addressByte, err := DecodeCheck(address)
-	if err != nil {
+	if err != nil || len(pre) != 1 || len(addressByte) != 0x14 {
 		return nil
 	}
 	ret = append(ret, pre...)
diff --git a/omniTransaction/txOmni.go b/omniTransaction/txOmni.go
index 04b331d..e0a738c 100644
--- a/omniTransaction/txOmni.go
+++ b/omniTransaction/txOmni.go
@@ -1,5 +1,7 @@
 package omniTransaction
 
+import "errors"
+
 type OmniStruct struct {
 	TxType     int
 	PropertyId uint32
@@ -9,7 +11,7 @@ type OmniStruct struct {
 	Address    string
 }
 
-func (os OmniStruct) getPayload() []byte {
+func (os OmniStruct) getPayload() ([]byte, error) {
 	payload := []byte{}
 	switch os.TxType {
 	case SimpleSend:
@@ -49,10 +51,23 @@ func (os OmniStruct) getPayload() []byte {
 		payload = createPayloadUnfreezeTokens(os.PropertyId, os.Amount, os.Address)
 		break
 	default:
-		return nil
+		return nil, errors.New("Unknown omni transaction type!")
+	}
+	if payload == nil {
+		return nil, errors.New("Invalid omni transaction data!")
 	}
 
 	payload = append(OmniPrefix[:], payload...)
-	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
-	return payload
+	script := []byte{OpReturn}
+	if len(payload) >= int(OpPushData1) {
+		if len(payload) > 0xFF {
+			script = append(script, OpPushData2)
+			script = append(script, uint16ToLittleEndianBytes(uint16(len(payload)))...)
+		} else {
+			script = append(script, OpPushData1, byte(len(payload)))
+		}
+	} else {
+		script = append(script, byte(len(payload)))
+	}
+	return append(script, payload...), nil
 }
diff --git a/omniTransaction/txOut.go b/omniTransaction/txOut.go
index b177c32..4bcb853 100644
--- a/omniTransaction/txOut.go
+++ b/omniTransaction/txOut.go
@@ -60,7 +60,11 @@ func newTxOutForEmptyTrans(vout []Vout, omniDetail OmniStruct, addressPrefix Add
 		ret = append(ret, TxOut{amount, hash})
 	}
 
-	ret = append(ret, TxOut{uint64ToLittleEndianBytes(0), omniDetail.getPayload()})
+	payload, err := omniDetail.getPayload()
+	if err != nil {
+		return nil, err
+	}
+	ret = append(ret, TxOut{uint64ToLittleEndianBytes(0), payload})
 
 	return ret, nil
 }
diff --git a/omniTransaction/txPayload.go b/omniTransaction/txPayload.go
index 57bbbb4..a71d8d7 100644
--- a/omniTransaction/txPayload.go
+++ b/omniTransaction/txPayload.go
@@ -145,7 +145,7 @@ func createPayloadFreezeTokens(propertyID uint32, amount uint64, address string)
 	ret = append(ret, uint64ToBigEndianBytes(amount)...)
 
 	pre, addressByte, err := DecodeCheck(address)
-	if err != nil {
+	if err != nil || len(pre) != 1 || len(addressByte) != 0x14 {
 		return nil
 	}
 	ret = append(ret, pre...)
@@ -166,7 +166,7 @@ func createPayloadUnfreezeTokens(propertyID uint32, amount uint64, address strin
 	ret = append(ret, uint64ToBigEndianBytes(amount)...)
 
 	pre, addressByte, err := DecodeCheck(address)
-	if err != nil {
+	if err != nil || len(pre) != 1 || len(addressByte) != 0x14 {
 		return nil
 	}
 	ret = append(ret, pre...)
-- 
2.43.0


From 377072037c31d3363bbb57453aed941a4850ba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:21 +0000
Subject: [PATCH 70/76] fix: cxc asset transfers name the asset by its 16-byte
 reference and take base58 addresses without a bech32 prefix

---
 cxcTransaction/txAsset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxcTransaction/txAsset.go b/cxcTransaction/txAsset.go
index 43b6f06..a084b97 100644
--- a/cxcTransaction/txAsset.go
+++ b/cxcTransaction/txAsset.go
@@ -9,7 +9,7 @@ func getTransferPayload(to AssetTransfer) []byte {
 	ret := []byte(AssetTransferSign)
 
 	sellfirstBytes, err := reverseHexToBytes(to.FirstSellTxID)
-	if err != nil {
+	if err != nil || len(sellfirstBytes) != 16 {
 		return nil
 	}
 
@@ -30,7 +30,7 @@ func getTransferAssetWithPayload(tos []AssetTransfer, addressPrefix AddressPrefi
 
 	ret := make([]TxOut, 0)
 	for _, to := range tos {
-		if strings.Index(to.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(to.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(to.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
-- 
2.43.0


From 4412cbc95fc4b454288082454659d44b140339e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:14 +0000
Subject: [PATCH 71/76] fix: bytom numbers of every size survive encoding,
 hashing and decoding, and malformed ones are refused without a crash

---
 bytomTransaction/txIn.go     | 27 +++++++---------
 bytomTransaction/txOut.go    | 18 +++++------
 bytomTransaction/txStruct.go | 61 +++++++++++++-----------------------
 bytomTransaction/txUtil.go   | 13 +++++++-
 4 files changed, 52 insertions(+), 67 deletions(-)

diff --git a/bytomTransaction/txIn.go b/bytomTransaction/txIn.go
index 89eab81..bf09331 100644
--- a/bytomTransaction/txIn.go
+++ b/bytomTransaction/txIn.go
@@ -3,6 +3,7 @@ package bytomTransaction
 import (
 	"encoding/hex"
 	"errors"
+	"math"
 )
 
 type TxIn struct {
@@ -81,6 +82,9 @@ func newTxInForEmptyTrans(vin []Vin) ([]TxIn, error) {
 		if nil != in.SetSourceID(v.SourceID) {
 			return nil, errors.New("Invalid source ID!")
 		}
+		if v.SourcePosition > math.MaxInt64 || v.Amount > math.MaxInt64 {
+			return nil, errors.New("Invalid source position or amount!")
+		}
 		in.SetSourcePosition(v.SourcePosition)
 
 		if nil != in.SetAssetID(v.AssetID) {
@@ -184,28 +188,19 @@ func decodeCommitment(script []byte) ([]byte, []byte, []byte, []byte, []byte, er
 	assetID := script[index : index+32]
 	index += 32
 
-	offset := 1
-	for {
-		if index+1 > limit {
-			return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
-		}
-
-		if script[index+offset-1] < 0x80 {
-			break
-		} else {
-			offset++
-			continue
-		}
+	_, offset := readUvarint(script[index:])
+	if offset == 0 {
+		return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
 	}
 	amount := script[index : index+offset]
 	index += offset
 
-	if index+1 > limit {
+	_, offset = readUvarint(script[index:])
+	if offset == 0 {
 		return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
 	}
-
-	sourcePos := script[index : index+1]
-	index++
+	sourcePos := script[index : index+offset]
+	index += offset
 
 	if index+1 > limit {
 		return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
diff --git a/bytomTransaction/txOut.go b/bytomTransaction/txOut.go
index 56b261c..07987fd 100644
--- a/bytomTransaction/txOut.go
+++ b/bytomTransaction/txOut.go
@@ -3,6 +3,7 @@ package bytomTransaction
 import (
 	"encoding/hex"
 	"errors"
+	"math"
 )
 
 type TxOut struct {
@@ -56,6 +57,9 @@ func newTxOutForEmptyTrans(vout []Vout) ([]TxOut, error) {
 		if nil != tmp.SetControlProgram(v.Address) {
 			return nil, errors.New("Invalid address!")
 		}
+		if v.Amount > math.MaxInt64 {
+			return nil, errors.New("Invalid amount!")
+		}
 		tmp.SetAmount(v.Amount)
 
 		ret = append(ret, tmp)
@@ -101,17 +105,9 @@ func decodeOutputScript(script []byte) ([]byte, []byte, []byte, error) {
 	assetID := script[index : index+32]
 	index += 32
 
-	offset := 1
-	for {
-		if index+1 > limit {
-			return nil, nil, nil, errors.New("Invalid output script data!")
-		}
-		if script[index+offset-1] < 0x80 {
-			break
-		} else {
-			offset++
-			continue
-		}
+	_, offset := readUvarint(script[index:])
+	if offset == 0 {
+		return nil, nil, nil, errors.New("Invalid output script data!")
 	}
 
 	amount := script[index : index+offset]
diff --git a/bytomTransaction/txStruct.go b/bytomTransaction/txStruct.go
index fe41dd5..f926178 100644
--- a/bytomTransaction/txStruct.go
+++ b/bytomTransaction/txStruct.go
@@ -2,6 +2,7 @@ package bytomTransaction
 
 import (
 	"errors"
+	"math"
 
 	"github.com/blocktree/go-owcrypt"
 )
@@ -36,6 +37,10 @@ func newEmptyTransaction(vins []Vin, vouts []Vout, timeRange uint64) (*Transacti
 		return nil, err
 	}
 
+	if timeRange > math.MaxInt64 {
+		return nil, errors.New("Invalid time range!")
+	}
+
 	var ret Transaction
 
 	ret.Inputs = txIn
@@ -68,7 +73,7 @@ func (t Transaction) toBytes() ([]byte, error) {
 	ret = append(ret, t.Version...)
 	ret = append(ret, t.TimeRange...)
 
-	ret = append(ret, byte(len(t.Inputs)))
+	ret = append(ret, uint64ToUvarint(uint64(len(t.Inputs)))...)
 
 	for _, in := range t.Inputs {
 		inBytes, err := in.toBytes()
@@ -78,7 +83,7 @@ func (t Transaction) toBytes() ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Outputs)))
+	ret = append(ret, uint64ToUvarint(uint64(len(t.Outputs)))...)
 
 	for _, out := range t.Outputs {
 		outBytes, err := out.toBytes()
@@ -111,51 +116,32 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 	index++
 
 	// get transaction version
-	offset := 1
-	for {
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data!")
-		}
-		if txBytes[index+offset-1] < 0x80 {
-			break
-		} else {
-			index++
-			continue
-		}
+	version, offset := readUvarint(txBytes[index:])
+	if offset == 0 || version != DefaultTransactionVersion {
+		return nil, errors.New("Invalid transaction version!")
 	}
 
 	rawTx.Version = txBytes[index : index+offset]
 	index += offset
 
 	// get range time
-	offset = 1
-	for {
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data!")
-		}
-		if txBytes[index+offset-1] < 0x80 {
-			break
-		} else {
-			offset++
-			continue
-		}
+	_, offset = readUvarint(txBytes[index:])
+	if offset == 0 {
+		return nil, errors.New("Invalid transaction data!")
 	}
 
 	rawTx.TimeRange = txBytes[index : index+offset]
 	index += offset
 
 	//get count of inputs
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data!")
-	}
-	numOfVins := txBytes[index]
-	index++
-	if numOfVins <= 0 {
+	numOfVins, offset := readUvarint(txBytes[index:])
+	index += offset
+	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
 	// get vins
-	for i := byte(0); i < numOfVins; i++ {
+	for i := uint64(0); i < numOfVins; i++ {
 		var in TxIn
 		// get asset version of inputs
 		if index+1 > limit {
@@ -247,16 +233,13 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		rawTx.Inputs = append(rawTx.Inputs, in)
 	}
 	//get count of outputs
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data!")
-	}
-	numOfVouts := txBytes[index]
-	index++
+	numOfVouts, offset := readUvarint(txBytes[index:])
+	index += offset
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := uint64(0); i < numOfVouts; i++ {
 		var out TxOut
 		if index+1 > limit {
 			return nil, errors.New("Invalid transaction data!")
@@ -375,7 +358,7 @@ func (t Transaction) getMuxID() ([]byte, error) {
 
 	var msgBytes []byte
 
-	msgBytes = append(msgBytes, byte(len(spendID)))
+	msgBytes = append(msgBytes, uint64ToUvarint(uint64(len(spendID)))...)
 
 	for i := 0; i < len(spendID); i++ {
 		msgBytes = append(msgBytes, spendID[i]...)
@@ -465,7 +448,7 @@ func (t Transaction) getTxID() ([]byte, error) {
 	}
 	msgBytes = append(msgBytes, uint64ToLittleEndianBytes(t.GetTimeRange())...)
 
-	msgBytes = append(msgBytes, byte(len(t.Outputs)))
+	msgBytes = append(msgBytes, uint64ToUvarint(uint64(len(t.Outputs)))...)
 
 	for _, o := range outID {
 		msgBytes = append(msgBytes, o...)
diff --git a/bytomTransaction/txUtil.go b/bytomTransaction/txUtil.go
index f67ebe3..d8bf7ea 100644
--- a/bytomTransaction/txUtil.go
+++ b/bytomTransaction/txUtil.go
@@ -2,10 +2,11 @@ package bytomTransaction
 
 import (
 	"encoding/binary"
+	"math"
 )
 
 func uint64ToUvarint(x uint64) []byte {
-	ret := [8]byte{}
+	ret := [binary.MaxVarintLen64]byte{}
 
 	len := binary.PutUvarint(ret[:], x)
 
@@ -29,6 +30,16 @@ func uvarintToUint64(buf []byte) uint64 {
 	return ret
 }
 
+// readUvarint reads the number at the start of data, and how many bytes it takes (0 if there is none
+// that the network would write there)
+func readUvarint(data []byte) (uint64, int) {
+	ret, used := binary.Uvarint(data)
+	if used <= 0 || ret > math.MaxInt64 || len(uint64ToUvarint(ret)) != used {
+		return 0, 0
+	}
+	return ret, used
+}
+
 //uint64ToLittleEndianBytes
 func uint64ToLittleEndianBytes(data uint64) []byte {
 	tmp := [8]byte{}
-- 
2.43.0


From 44b9a180fb4c5c79dedd8fc31893048a3c92d912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:14 +0000
Subject: [PATCH 72/76] fix: bytom digests take the coin from position 0 of its
 spend, whatever its position in the transaction that made it

---
 bytomTransaction/txStruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytomTransaction/txStruct.go b/bytomTransaction/txStruct.go
index f926178..9b623a3 100644
--- a/bytomTransaction/txStruct.go
+++ b/bytomTransaction/txStruct.go
@@ -364,7 +364,7 @@ func (t Transaction) getMuxID() ([]byte, error) {
 		msgBytes = append(msgBytes, spendID[i]...)
 		msgBytes = append(msgBytes, t.Inputs[i].AssetID...)
 		msgBytes = append(msgBytes, uint64ToLittleEndianBytes(t.Inputs[i].GetAmount())...)
-		msgBytes = append(msgBytes, uint64ToLittleEndianBytes(t.Inputs[i].GetSourcePosition())...)
+		msgBytes = append(msgBytes, uint64ToLittleEndianBytes(0)...) // a spend has a single output
 	}
 
 	msgBytes = append(msgBytes, uint64ToLittleEndianBytes(DefaultVMVersion)...)
-- 
2.43.0


From dfb1569d00072ffb4ca2f386084ddc744c1a9ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:14 +0000
Subject: [PATCH 73/76] fix: bytom refuses addresses of another network and
 control programs it cannot spend without a crash

---
 bytomTransaction/transaction.go | 15 +++++++--------
 bytomTransaction/txIn.go        | 10 +++++++++-
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/bytomTransaction/transaction.go b/bytomTransaction/transaction.go
index c1d3371..e332a32 100644
--- a/bytomTransaction/transaction.go
+++ b/bytomTransaction/transaction.go
@@ -22,15 +22,14 @@ type Vout struct {
 
 func CreateEmptyRawTransaction(vins []Vin, vouts []Vout, timeRange uint64, isTestNet bool) (string, error) {
 
+	hrp := Bech32HRPSegwitMainNet
+	if isTestNet {
+		hrp = Bech32HRPSegwitTestNet
+	}
 	for _, addr := range vouts {
-		if isTestNet {
-			if addr.Address[:2] != Bech32HRPSegwitTestNet {
-				return "", errors.New("Invalid address to send!")
-			}
-		} else {
-			if addr.Address[:2] != Bech32HRPSegwitMainNet {
-				return "", errors.New("Invalid address to send!")
-			}
+		addrHrp, _, err := Bech32Decode(addr.Address)
+		if err != nil || addrHrp != hrp {
+			return "", errors.New("Invalid address to send!")
 		}
 	}
 
diff --git a/bytomTransaction/txIn.go b/bytomTransaction/txIn.go
index bf09331..ad77a4d 100644
--- a/bytomTransaction/txIn.go
+++ b/bytomTransaction/txIn.go
@@ -103,6 +103,11 @@ func newTxInForEmptyTrans(vin []Vin) ([]TxIn, error) {
 	return ret, nil
 }
 
+// isWitnessProgram tells whether a program pays to a key hash or to a script hash
+func isWitnessProgram(program []byte) bool {
+	return (len(program) == 22 || len(program) == 34) && program[0] == 0x00 && int(program[1]) == len(program)-2
+}
+
 func (in TxIn) toBytes() ([]byte, error) {
 
 	if in.SourceID == nil || len(in.SourceID) != 32 {
@@ -111,7 +116,7 @@ func (in TxIn) toBytes() ([]byte, error) {
 	if in.AssetID == nil || len(in.AssetID) != 32 {
 		return nil, errors.New("No asset ID found or asset ID is in wrong length!")
 	}
-	if in.ControlProgram == nil || (len(in.ControlProgram) != 22 && len(in.ControlProgram) != 34) {
+	if !isWitnessProgram(in.ControlProgram) {
 		return nil, errors.New("No control program found or control program is in wrong length!")
 	}
 	if in.SourcePosition == nil || len(in.SourcePosition) == 0 {
@@ -223,5 +228,8 @@ func decodeCommitment(script []byte) ([]byte, []byte, []byte, []byte, []byte, er
 	}
 
 	controlProgram := script[index+1:]
+	if !isWitnessProgram(controlProgram) {
+		return nil, nil, nil, nil, nil, errors.New("Invalid control program!")
+	}
 	return sourceID, assetID, amount, sourcePos, controlProgram, nil
 }
-- 
2.43.0


From f68808cfd4d6dc323b9e7c736cd5de3e6fe2cc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:06 +0000
Subject: [PATCH 74/76] fix: bytom multisig witnesses of every size are built,
 read and verified the way the network does, and mismatched signature data is
 refused without a crash

---
 bytomTransaction/transaction.go |  30 +++++++--
 bytomTransaction/txHash.go      |  18 +++--
 bytomTransaction/txIn.go        |   1 +
 bytomTransaction/txMultiSig.go  | 116 +++++++++-----------------------
 bytomTransaction/txProfile.go   |   1 +
 bytomTransaction/txStruct.go    |  61 +++++------------
 6 files changed, 86 insertions(+), 141 deletions(-)

diff --git a/bytomTransaction/transaction.go b/bytomTransaction/transaction.go
index e332a32..c619528 100644
--- a/bytomTransaction/transaction.go
+++ b/bytomTransaction/transaction.go
@@ -1,6 +1,7 @@
 package bytomTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -123,16 +124,25 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash) (strin
 		return "", errors.New("Invalid empty transaction,no output found!")
 	}
 
+	if len(emptyTrans.Inputs) != len(txHashes) {
+		return "", errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
 	for i := 0; i < len(txHashes); i++ {
 		if txHashes[i].IsMultiSig() {
 			multiSigData, controlProgram, err := txHashes[i].getMultiSigBytes()
 			if err != nil {
 				return "", err
 			}
-			emptyTrans.Inputs[i].ControlProgram = controlProgram
+			if !bytes.Equal(emptyTrans.Inputs[i].ControlProgram, controlProgram) {
+				return "", errors.New("The multisig data does not match the input!")
+			}
 			emptyTrans.Inputs[i].MultiSig = multiSigData
 			emptyTrans.Inputs[i].SigPub = nil
 		} else {
+			if txHashes[i].Normal == nil || len(emptyTrans.Inputs[i].ControlProgram) != 22 {
+				return "", errors.New("The signature data does not match the input!")
+			}
 			emptyTrans.Inputs[i].SigPub = &txHashes[i].Normal.SigPub
 			emptyTrans.Inputs[i].MultiSig = nil
 		}
@@ -177,16 +187,19 @@ func VerifyRawTransaction(txHex string) bool {
 
 	for i := 0; i < len(txHashes); i++ {
 		if len(signedTrans.Inputs[i].ControlProgram) == 0x22 {
-			sigs, pubs, err := getMultiSigPubs(signedTrans.Inputs[i].MultiSig)
+			sigs, pubs, signScript, err := getMultiSigPubs(signedTrans.Inputs[i].MultiSig)
 			if err != nil {
 				return false
 			}
+			scriptHash := owcrypt.Hash(signScript, 0, owcrypt.HASH_ALG_SHA3_256)
+			if !bytes.Equal(signedTrans.Inputs[i].ControlProgram[2:], scriptHash) {
+				return false
+			}
+			// the signatures stand in the order of their keys
 			count := 0
-			for j := 0; j < len(sigs); j++ {
-				for k := j; k < len(pubs); k++ {
-					if owcrypt.SUCCESS == owcrypt.Verify(pubs[k], nil, txHashes[i], sigs[j], owcrypt.ECC_CURVE_ED25519_NORMAL) {
-						count++
-					}
+			for k := 0; k < len(pubs) && count < len(sigs); k++ {
+				if owcrypt.SUCCESS == owcrypt.Verify(pubs[k], nil, txHashes[i], sigs[count], owcrypt.ECC_CURVE_ED25519_NORMAL) {
+					count++
 				}
 			}
 
@@ -194,6 +207,9 @@ func VerifyRawTransaction(txHex string) bool {
 				return false
 			}
 		} else {
+			if signedTrans.Inputs[i].SigPub == nil {
+				return false
+			}
 			if owcrypt.SUCCESS != owcrypt.Verify(signedTrans.Inputs[i].SigPub.Pubkey, nil, txHashes[i], signedTrans.Inputs[i].SigPub.Signature, owcrypt.ECC_CURVE_ED25519_NORMAL) {
 				return false
 			}
diff --git a/bytomTransaction/txHash.go b/bytomTransaction/txHash.go
index 477f850..4a6a374 100644
--- a/bytomTransaction/txHash.go
+++ b/bytomTransaction/txHash.go
@@ -1,6 +1,7 @@
 package bytomTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -53,12 +54,20 @@ func (th TxHash) getMultiSigBytes() ([]byte, []byte, error) {
 
 	signScript = append(signScript, Op_TxSignHash)
 
+	if int(th.NRequired) > len(th.Multi) || len(th.Multi) > MaxMultiSigKeys {
+		return nil, nil, errors.New("Invalid number of keys for create multisig!")
+	}
+
 	for _, key := range th.Multi {
-		if key.SigPub.Pubkey == nil || len(key.SigPub.Pubkey) != 0x20 {
+		pubkey, err := hex.DecodeString(key.Pubkey)
+		if err != nil || len(pubkey) != 0x20 {
 			return nil, nil, errors.New("Invalid pubkey data for create multisig!")
 		}
+		if key.SigPub.Signature != nil && !bytes.Equal(pubkey, key.SigPub.Pubkey) {
+			return nil, nil, errors.New("The signature is from another key!")
+		}
 		signScript = append(signScript, 0x20)
-		signScript = append(signScript, key.SigPub.Pubkey...)
+		signScript = append(signScript, pubkey...)
 	}
 
 	signScript = append(signScript, Op_1-1+th.NRequired)
@@ -71,7 +80,7 @@ func (th TxHash) getMultiSigBytes() ([]byte, []byte, error) {
 
 	sigBytes := []byte{}
 
-	sigBytes = append(sigBytes, 0x01, 0x03)
+	sigBytes = append(sigBytes, th.NRequired+1)
 
 	count := 0
 	for _, sp := range th.Multi {
@@ -95,9 +104,8 @@ func (th TxHash) getMultiSigBytes() ([]byte, []byte, error) {
 		return nil, nil, errors.New("Not competely signed!")
 	}
 
-	sigBytes = append(sigBytes, byte(len(signScript)))
+	sigBytes = append(sigBytes, uint64ToUvarint(uint64(len(signScript)))...)
 	sigBytes = append(sigBytes, signScript...)
 
-	sigBytes = append([]byte{byte(len(sigBytes) - 1)}, sigBytes...)
 	return sigBytes, scriptHash, nil
 }
diff --git a/bytomTransaction/txIn.go b/bytomTransaction/txIn.go
index ad77a4d..22bfd0a 100644
--- a/bytomTransaction/txIn.go
+++ b/bytomTransaction/txIn.go
@@ -143,6 +143,7 @@ func (in TxIn) toBytes() ([]byte, error) {
 		ret = append(ret, 0x01, 0x00)
 	} else {
 		if in.SigPub == nil {
+			ret = append(ret, uint64ToUvarint(uint64(len(in.MultiSig)))...)
 			ret = append(ret, in.MultiSig...)
 		} else {
 			spBytes, err := in.SigPub.toBytes()
diff --git a/bytomTransaction/txMultiSig.go b/bytomTransaction/txMultiSig.go
index c7bf728..1b9dec0 100644
--- a/bytomTransaction/txMultiSig.go
+++ b/bytomTransaction/txMultiSig.go
@@ -20,6 +20,10 @@ func CreateMultiSig(required byte, pubkeys [][]byte, isTestNet bool) (string, st
 		return "", "", errors.New("The required number is bigger than the count of pubkeys!")
 	}
 
+	if len(pubkeys) > MaxMultiSigKeys {
+		return "", "", errors.New("Too many pubkeys!")
+	}
+
 	signScript := []byte{}
 
 	signScript = append(signScript, Op_TxSignHash)
@@ -88,7 +92,7 @@ func getMultiSigDetail(signScript []byte) ([]MultiTx, byte, error) {
 
 	required := signScript[index] - (Op_1 - 1)
 
-	if required <= 0 {
+	if required <= 0 || int(required) > len(multi) || len(multi) > MaxMultiSigKeys {
 		return nil, 0, errors.New("Invalid required number for a multi sigScript!")
 	}
 	index++
@@ -114,7 +118,9 @@ func getMultiSigDetail(signScript []byte) ([]MultiTx, byte, error) {
 	return multi, required, nil
 }
 
-func getMultiSigPubs(sp []byte) ([][]byte, [][]byte, error) {
+// getMultiSigPubs takes the witness of a multisig input apart: the signatures, the keys and the program
+// that asks for them
+func getMultiSigPubs(sp []byte) ([][]byte, [][]byte, []byte, error) {
 
 	var sigs [][]byte
 	var pubs [][]byte
@@ -122,98 +128,42 @@ func getMultiSigPubs(sp []byte) ([][]byte, [][]byte, error) {
 	limit := len(sp)
 	index := 0
 
-	if index+2 > limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+	if index+1 > limit || sp[index] < 2 {
+		return nil, nil, nil, errors.New("Invalid signature and public key data!")
 	}
-
-	if sp[index] != 0x01 || sp[index+1] != 0x03 {
-		return nil, nil, errors.New("Invalid signature and public key data!")
-	}
-
-	index += 2
-
-	for {
-		if index+1 > limit {
-			return nil, nil, errors.New("Invalid signature and public key data!")
-		}
-
-		if sp[index] == 0x40 {
-			index++
-			if index+0x40 > limit {
-				return nil, nil, errors.New("Invalid signature and public key data!")
-			}
-			sigs = append(sigs, sp[index:index+0x40])
-			index += 0x40
-		} else {
-			break
-		}
-	}
-
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
-	}
-
-	commitLen := int(sp[index])
-
+	numOfSigs := int(sp[index]) - 1
 	index++
 
-	if index+commitLen != limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
-	}
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
-	}
-	if sp[index] != Op_TxSignHash {
-		return nil, nil, errors.New("Invalid signature and public key data!")
-	}
-	index++
-	for {
-		if index+1 > limit {
-			return nil, nil, errors.New("Invalid signature and public key data!")
-		}
-		if sp[index] != 0x20 {
-			break
+	for i := 0; i < numOfSigs; i++ {
+		if index+1+0x40 > limit || sp[index] != 0x40 {
+			return nil, nil, nil, errors.New("Invalid signature and public key data!")
 		}
 		index++
-
-		if index+0x20 > limit {
-			return nil, nil, errors.New("Invalid signature and public key data!")
-		}
-
-		pubs = append(pubs, sp[index:index+0x20])
-
-		index += 0x20
-	}
-
-	required := sp[index] - (Op_1 - 1)
-	index++
-
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+		sigs = append(sigs, sp[index:index+0x40])
+		index += 0x40
 	}
 
-	count := sp[index] - (Op_1 - 1)
-	index++
-
-	if int(count) != len(pubs) {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+	scriptLen, used := readUvarint(sp[index:])
+	index += used
+	if used == 0 || scriptLen != uint64(limit-index) {
+		return nil, nil, nil, errors.New("Invalid signature and public key data!")
 	}
+	signScript := sp[index:]
 
-	if int(required) != len(sigs) {
-		return nil, nil, errors.New("Not competely signed!")
-	}
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+	multi, required, err := getMultiSigDetail(signScript)
+	if err != nil {
+		return nil, nil, nil, err
 	}
-
-	if sp[index] != Op_CheckMultiSig {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+	if int(required) != numOfSigs {
+		return nil, nil, nil, errors.New("Not competely signed!")
 	}
-	index++
-
-	if index != limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+	for _, key := range multi {
+		pub, err := hex.DecodeString(key.Pubkey)
+		if err != nil {
+			return nil, nil, nil, err
+		}
+		pubs = append(pubs, pub)
 	}
 
-	return sigs, pubs, nil
+	return sigs, pubs, signScript, nil
 }
diff --git a/bytomTransaction/txProfile.go b/bytomTransaction/txProfile.go
index 929c482..7d4a110 100644
--- a/bytomTransaction/txProfile.go
+++ b/bytomTransaction/txProfile.go
@@ -18,6 +18,7 @@ const (
 	Op_1                      = byte(0x51)
 	Op_TxSignHash             = byte(0xAE)
 	Op_CheckMultiSig          = byte(0xAD)
+	MaxMultiSigKeys           = 16
 
 	BTMAssetID = "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"
 )
diff --git a/bytomTransaction/txStruct.go b/bytomTransaction/txStruct.go
index 9b623a3..36e5df3 100644
--- a/bytomTransaction/txStruct.go
+++ b/bytomTransaction/txStruct.go
@@ -177,58 +177,27 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 
 		index += commitLength
 
-		if index+1 > limit {
+		// get witness
+		witLen, used := readUvarint(txBytes[index:])
+		index += used
+		if witLen == 0 || witLen > uint64(limit-index) {
 			return nil, errors.New("Invalid transaction data!")
 		}
-		if txBytes[index] == 0x01 {
-			if index+2 > limit {
-				return nil, errors.New("Invalid transaction data!")
-			}
-			if txBytes[index+1] != 0x00 {
+		witness := txBytes[index : index+int(witLen)]
+		index += int(witLen)
+
+		if len(witness) == 1 {
+			if witness[0] != 0x00 {
 				return nil, errors.New("Invalid transaction data!")
-			} else {
-				in.SigPub = nil
-				index += 2
 			}
+			in.SigPub = nil
+		} else if len(controlProgram) == 0x22 {
+			in.MultiSig = witness
 		} else {
-			spScriptLen := int(txBytes[index])
-			if spScriptLen == 0 {
-				return nil, errors.New("Invalid transaction data!")
-			}
-			index++
-			if index+2 > limit {
-				return nil, errors.New("Invalid transaction data!")
-			}
-			if txBytes[index] == 0x02 && txBytes[index+1] == 0x40 {
-				index += 2
-				if index+64 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				sig := txBytes[index : index+64]
-				index += 64
-				if index+1 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				if txBytes[index] != 32 {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				index++
-				if index+32 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				pub := txBytes[index : index+32]
-				index += 32
-				in.SigPub = &SigPub{sig, pub}
-			} else if txBytes[index] == 0x01 && txBytes[index+1] == 0x03 {
-
-				if index+spScriptLen+1 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				in.MultiSig = txBytes[index : index+spScriptLen+1]
-				index += spScriptLen + 1
-			} else {
+			if len(witness) != 0x63 || witness[0] != 0x02 || witness[1] != 0x40 || witness[66] != 0x20 {
 				return nil, errors.New("Invalid transaction data!")
 			}
+			in.SigPub = &SigPub{witness[2:66], witness[67:]}
 		}
 		rawTx.Inputs = append(rawTx.Inputs, in)
 	}
@@ -254,7 +223,7 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 			return nil, errors.New("Invalid transaction data!")
 		}
 		oLen := txBytes[index]
-		if oLen == 0 {
+		if oLen == 0 || oLen >= 0x80 {
 			return nil, errors.New("Invalid transaction data!")
 		}
 		index++
-- 
2.43.0


From 783c64c539b3ff6163850b264d695cb587fc0913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:36 +0000
Subject: [PATCH 75/76] fix: bech32 texts of a wrong length or padding, or
 without a separator, are refused and others decode to their exact bytes

---
 btcLikeTxDriver/bech32.go    | 42 +++++++++++++++----------------
 btcTransaction/bech32.go     | 49 +++++++++++++++---------------------
 cosmosTransaction/bech32.go  | 49 +++++++++++++++---------------------
 cxcTransaction/bech32.go     | 49 +++++++++++++++---------------------
 evaioTransaction/bech32.go   | 49 +++++++++++++++---------------------
 hcTransaction/bech32.go      | 49 +++++++++++++++---------------------
 omniTransaction/bech32.go    | 49 +++++++++++++++---------------------
 zencashTransaction/bech32.go | 49 +++++++++++++++---------------------
 8 files changed, 160 insertions(+), 225 deletions(-)

diff --git a/btcLikeTxDriver/bech32.go b/btcLikeTxDriver/bech32.go
index 68a4a7b..92e62b6 100644
--- a/btcLikeTxDriver/bech32.go
+++ b/btcLikeTxDriver/bech32.go
@@ -124,18 +124,25 @@ func extendPayload(payload []int8) []int8 {
 	return ret
 }
 
-func unecxtendPayload(extendedPayload []int8) []int8 {
-	length := len(extendedPayload) * 5 / 8
-
-	ret := make([]int8, length)
-
-	for i := 0; i < len(extendedPayload)-1; i++ {
-		ret[length-1] |= extendedPayload[i]
-		byteShl5(&ret)
+// unecxtendPayload regroups 5-bit digits into bytes; what is left over must be
+// less than a digit and zero, as BIP173 demands.
+func unecxtendPayload(extendedPayload []int8) ([]byte, error) {
+	ret := []byte{}
+	acc := uint32(0)
+	bits := uint(0)
+	for _, d := range extendedPayload {
+		acc = acc<<5 | uint32(d)
+		bits += 5
+		if bits >= 8 {
+			bits -= 8
+			ret = append(ret, byte(acc>>bits))
+			acc &= 1<<bits - 1
+		}
 	}
-	ret[length-1] |= extendedPayload[len(extendedPayload)-1]
-
-	return ret
+	if bits > 4 || acc != 0 {
+		return nil, ErrorInvalidAddress
+	}
+	return ret, nil
 }
 
 func Bech32Encode(prefix, alphabet string, payload []byte) string {
@@ -184,7 +191,7 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	if upper && lower {
+	if (upper && lower) || prefixSize == 0 {
 		return nil, ErrorInvalidAddress
 	}
 
@@ -204,14 +211,5 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	tmp := make([]int8, len(value)-6)
-	copy(tmp, value)
-
-	ret := unecxtendPayload(tmp)
-	bytePayload := make([]byte, len(ret))
-
-	for i := 0; i < len(ret); i++ {
-		bytePayload[i] = byte(ret[i])
-	}
-	return bytePayload, nil
+	return unecxtendPayload(value[1 : len(value)-6])
 }
diff --git a/btcTransaction/bech32.go b/btcTransaction/bech32.go
index 6da0d9c..3a6c957 100644
--- a/btcTransaction/bech32.go
+++ b/btcTransaction/bech32.go
@@ -1,7 +1,6 @@
 package btcTransaction
 
 import (
-	"encoding/hex"
 	"errors"
 	"strings"
 )
@@ -125,18 +124,25 @@ func extendPayload(payload []int8) []int8 {
 	return ret
 }
 
-func unecxtendPayload(extendedPayload []int8) []int8 {
-	length := len(extendedPayload) * 5 / 8
-
-	ret := make([]int8, length)
-
-	for i := 0; i < len(extendedPayload)-1; i++ {
-		ret[length-1] |= extendedPayload[i]
-		byteShl5(&ret)
+// unecxtendPayload regroups 5-bit digits into bytes; what is left over must be
+// less than a digit and zero, as BIP173 demands.
+func unecxtendPayload(extendedPayload []int8) ([]byte, error) {
+	ret := []byte{}
+	acc := uint32(0)
+	bits := uint(0)
+	for _, d := range extendedPayload {
+		acc = acc<<5 | uint32(d)
+		bits += 5
+		if bits >= 8 {
+			bits -= 8
+			ret = append(ret, byte(acc>>bits))
+			acc &= 1<<bits - 1
+		}
 	}
-	ret[length-1] |= extendedPayload[len(extendedPayload)-1]
-
-	return ret
+	if bits > 4 || acc != 0 {
+		return nil, ErrorInvalidAddress
+	}
+	return ret, nil
 }
 
 func Bech32Encode(prefix, alphabet string, payload []byte) string {
@@ -185,7 +191,7 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	if upper && lower {
+	if (upper && lower) || prefixSize == 0 {
 		return nil, ErrorInvalidAddress
 	}
 
@@ -205,20 +211,5 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	tmp := make([]int8, len(value)-6)
-	copy(tmp, value)
-
-	ret := unecxtendPayload(tmp)
-	bytePayload := make([]byte, len(ret))
-
-	for i := 0; i < len(ret); i++ {
-		bytePayload[i] = byte(ret[i])
-	}
-
-	if len(bytePayload) == 33 {
-		tmp := hex.EncodeToString(bytePayload)[1:65]
-		bytePayload, _ = hex.DecodeString(tmp)
-	}
-
-	return bytePayload, nil
+	return unecxtendPayload(value[1 : len(value)-6])
 }
diff --git a/cosmosTransaction/bech32.go b/cosmosTransaction/bech32.go
index 8da6008..08b8000 100644
--- a/cosmosTransaction/bech32.go
+++ b/cosmosTransaction/bech32.go
@@ -1,7 +1,6 @@
 package cosmosTransaction
 
 import (
-	"encoding/hex"
 	"errors"
 	"strings"
 )
@@ -125,18 +124,25 @@ func extendPayload(payload []int8) []int8 {
 	return ret
 }
 
-func unecxtendPayload(extendedPayload []int8) []int8 {
-	length := len(extendedPayload) * 5 / 8
-
-	ret := make([]int8, length)
-
-	for i := 0; i < len(extendedPayload)-1; i++ {
-		ret[length-1] |= extendedPayload[i]
-		byteShl5(&ret)
+// unecxtendPayload regroups 5-bit digits into bytes; what is left over must be
+// less than a digit and zero, as BIP173 demands.
+func unecxtendPayload(extendedPayload []int8) ([]byte, error) {
+	ret := []byte{}
+	acc := uint32(0)
+	bits := uint(0)
+	for _, d := range extendedPayload {
+		acc = acc<<5 | uint32(d)
+		bits += 5
+		if bits >= 8 {
+			bits -= 8
+			ret = append(ret, byte(acc>>bits))
+			acc &= 1<<bits - 1
+		}
 	}
-	ret[length-1] |= extendedPayload[len(extendedPayload)-1]
-
-	return ret
+	if bits > 4 || acc != 0 {
+		return nil, ErrorInvalidAddress
+	}
+	return ret, nil
 }
 
 func Bech32Encode(prefix, alphabet string, payload []byte) string {
@@ -185,7 +191,7 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	if upper && lower {
+	if (upper && lower) || prefixSize == 0 {
 		return nil, ErrorInvalidAddress
 	}
 
@@ -205,20 +211,5 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	tmp := make([]int8, len(value)-6)
-	copy(tmp, value)
-
-	ret := unecxtendPayload(tmp)
-	bytePayload := make([]byte, len(ret))
-
-	for i := 0; i < len(ret); i++ {
-		bytePayload[i] = byte(ret[i])
-	}
-
-	if len(bytePayload) == 33 {
-		tmp := hex.EncodeToString(bytePayload)[1:65]
-		bytePayload, _ = hex.DecodeString(tmp)
-	}
-
-	return bytePayload, nil
+	return unecxtendPayload(value[:len(value)-6])
 }
diff --git a/cxcTransaction/bech32.go b/cxcTransaction/bech32.go
index 6a75f91..5b56eb2 100644
--- a/cxcTransaction/bech32.go
+++ b/cxcTransaction/bech32.go
@@ -1,7 +1,6 @@
 package cxcTransaction
 
 import (
-	"encoding/hex"
 	"errors"
 	"strings"
 )
@@ -125,18 +124,25 @@ func extendPayload(payload []int8) []int8 {
 	return ret
 }
 
-func unecxtendPayload(extendedPayload []int8) []int8 {
-	length := len(extendedPayload) * 5 / 8
-
-	ret := make([]int8, length)
-
-	for i := 0; i < len(extendedPayload)-1; i++ {
-		ret[length-1] |= extendedPayload[i]
-		byteShl5(&ret)
+// unecxtendPayload regroups 5-bit digits into bytes; what is left over must be
+// less than a digit and zero, as BIP173 demands.
+func unecxtendPayload(extendedPayload []int8) ([]byte, error) {
+	ret := []byte{}
+	acc := uint32(0)
+	bits := uint(0)
+	for _, d := range extendedPayload {
+		acc = acc<<5 | uint32(d)
+		bits += 5
+		if bits >= 8 {
+			bits -= 8
+			ret = append(ret, byte(acc>>bits))
+			acc &= 1<<bits - 1
+		}
 	}
-	ret[length-1] |= extendedPayload[len(extendedPayload)-1]
-
-	return ret
+	if bits > 4 || acc != 0 {
+		return nil, ErrorInvalidAddress
+	}
+	return ret, nil
 }
 
 func Bech32Encode(prefix, alphabet string, payload []byte) string {
@@ -185,7 +191,7 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	if upper && lower {
+	if (upper && lower) || prefixSize == 0 {
 		return nil, ErrorInvalidAddress
 	}
 
@@ -205,20 +211,5 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	tmp := make([]int8, len(value)-6)
-	copy(tmp, value)
-
-	ret := unecxtendPayload(tmp)
-	bytePayload := make([]byte, len(ret))
-
-	for i := 0; i < len(ret); i++ {
-		bytePayload[i] = byte(ret[i])
-	}
-
-	if len(bytePayload) == 33 {
-		tmp := hex.EncodeToString(bytePayload)[1:65]
-		bytePayload, _ = hex.DecodeString(tmp)
-	}
-
-	return bytePayload, nil
+	return unecxtendPayload(value[1 : len(value)-6])
 }
diff --git a/evaioTransaction/bech32.go b/evaioTransaction/bech32.go
index c5f3b82..9bdde2f 100644
--- a/evaioTransaction/bech32.go
+++ b/evaioTransaction/bech32.go
@@ -1,7 +1,6 @@
 package evaioTransaction
 
 import (
-	"encoding/hex"
 	"errors"
 	"strings"
 )
@@ -125,18 +124,25 @@ func extendPayload(payload []int8) []int8 {
 	return ret
 }
 
-func unecxtendPayload(extendedPayload []int8) []int8 {
-	length := len(extendedPayload) * 5 / 8
-
-	ret := make([]int8, length)
-
-	for i := 0; i < len(extendedPayload)-1; i++ {
-		ret[length-1] |= extendedPayload[i]
-		byteShl5(&ret)
+// unecxtendPayload regroups 5-bit digits into bytes; what is left over must be
+// less than a digit and zero, as BIP173 demands.
+func unecxtendPayload(extendedPayload []int8) ([]byte, error) {
+	ret := []byte{}
+	acc := uint32(0)
+	bits := uint(0)
+	for _, d := range extendedPayload {
+		acc = acc<<5 | uint32(d)
+		bits += 5
+		if bits >= 8 {
+			bits -= 8
+			ret = append(ret, byte(acc>>bits))
+			acc &= 1<<bits - 1
+		}
 	}
-	ret[length-1] |= extendedPayload[len(extendedPayload)-1]
-
-	return ret
+	if bits > 4 || acc != 0 {
+		return nil, ErrorInvalidAddress
+	}
+	return ret, nil
 }
 
 func Bech32Encode(prefix, alphabet string, payload []byte) string {
@@ -185,7 +191,7 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	if upper && lower {
+	if (upper && lower) || prefixSize == 0 {
 		return nil, ErrorInvalidAddress
 	}
 
@@ -205,20 +211,5 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	tmp := make([]int8, len(value)-6)
-	copy(tmp, value)
-
-	ret := unecxtendPayload(tmp)
-	bytePayload := make([]byte, len(ret))
-
-	for i := 0; i < len(ret); i++ {
-		bytePayload[i] = byte(ret[i])
-	}
-
-	if len(bytePayload) == 33 {
-		tmp := hex.EncodeToString(bytePayload)[1:65]
-		bytePayload, _ = hex.DecodeString(tmp)
-	}
-
-	return bytePayload, nil
+	return unecxtendPayload(value[:len(value)-6])
 }
diff --git a/hcTransaction/bech32.go b/hcTransaction/bech32.go
index 5cbbded..a155a8f 100644
--- a/hcTransaction/bech32.go
+++ b/hcTransaction/bech32.go
@@ -1,7 +1,6 @@
 package hcTransaction
 
 import (
-	"encoding/hex"
 	"errors"
 	"strings"
 )
@@ -125,18 +124,25 @@ func extendPayload(payload []int8) []int8 {
 	return ret
 }
 
-func unecxtendPayload(extendedPayload []int8) []int8 {
-	length := len(extendedPayload) * 5 / 8
-
-	ret := make([]int8, length)
-
-	for i := 0; i < len(extendedPayload)-1; i++ {
-		ret[length-1] |= extendedPayload[i]
-		byteShl5(&ret)
+// unecxtendPayload regroups 5-bit digits into bytes; what is left over must be
+// less than a digit and zero, as BIP173 demands.
+func unecxtendPayload(extendedPayload []int8) ([]byte, error) {
+	ret := []byte{}
+	acc := uint32(0)
+	bits := uint(0)
+	for _, d := range extendedPayload {
+		acc = acc<<5 | uint32(d)
+		bits += 5
+		if bits >= 8 {
+			bits -= 8
+			ret = append(ret, byte(acc>>bits))
+			acc &= 1<<bits - 1
+		}
 	}
-	ret[length-1] |= extendedPayload[len(extendedPayload)-1]
-
-	return ret
+	if bits > 4 || acc != 0 {
+		return nil, ErrorInvalidAddress
+	}
+	return ret, nil
 }
 
 func Bech32Encode(prefix, alphabet string, payload []byte) string {
@@ -185,7 +191,7 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	if upper && lower {
+	if (upper && lower) || prefixSize == 0 {
 		return nil, ErrorInvalidAddress
 	}
 
@@ -205,20 +211,5 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	tmp := make([]int8, len(value)-6)
-	copy(tmp, value)
-
-	ret := unecxtendPayload(tmp)
-	bytePayload := make([]byte, len(ret))
-
-	for i := 0; i < len(ret); i++ {
-		bytePayload[i] = byte(ret[i])
-	}
-
-	if len(bytePayload) == 33 {
-		tmp := hex.EncodeToString(bytePayload)[1:65]
-		bytePayload, _ = hex.DecodeString(tmp)
-	}
-
-	return bytePayload, nil
+	return unecxtendPayload(value[1 : len(value)-6])
 }
diff --git a/omniTransaction/bech32.go b/omniTransaction/bech32.go
index 83c0999..7ac02db 100644
--- a/omniTransaction/bech32.go
+++ b/omniTransaction/bech32.go
@@ -1,7 +1,6 @@
 package omniTransaction
 
 import (
-	"encoding/hex"
 	"errors"
 	"strings"
 )
@@ -125,18 +124,25 @@ func extendPayload(payload []int8) []int8 {
 	return ret
 }
 
-func unecxtendPayload(extendedPayload []int8) []int8 {
-	length := len(extendedPayload) * 5 / 8
-
-	ret := make([]int8, length)
-
-	for i := 0; i < len(extendedPayload)-1; i++ {
-		ret[length-1] |= extendedPayload[i]
-		byteShl5(&ret)
+// unecxtendPayload regroups 5-bit digits into bytes; what is left over must be
+// less than a digit and zero, as BIP173 demands.
+func unecxtendPayload(extendedPayload []int8) ([]byte, error) {
+	ret := []byte{}
+	acc := uint32(0)
+	bits := uint(0)
+	for _, d := range extendedPayload {
+		acc = acc<<5 | uint32(d)
+		bits += 5
+		if bits >= 8 {
+			bits -= 8
+			ret = append(ret, byte(acc>>bits))
+			acc &= 1<<bits - 1
+		}
 	}
-	ret[length-1] |= extendedPayload[len(extendedPayload)-1]
-
-	return ret
+	if bits > 4 || acc != 0 {
+		return nil, ErrorInvalidAddress
+	}
+	return ret, nil
 }
 
 func Bech32Encode(prefix, alphabet string, payload []byte) string {
@@ -185,7 +191,7 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	if upper && lower {
+	if (upper && lower) || prefixSize == 0 {
 		return nil, ErrorInvalidAddress
 	}
 
@@ -205,20 +211,5 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	tmp := make([]int8, len(value)-6)
-	copy(tmp, value)
-
-	ret := unecxtendPayload(tmp)
-	bytePayload := make([]byte, len(ret))
-
-	for i := 0; i < len(ret); i++ {
-		bytePayload[i] = byte(ret[i])
-	}
-
-	if len(bytePayload) == 33 {
-		tmp := hex.EncodeToString(bytePayload)[1:65]
-		bytePayload, _ = hex.DecodeString(tmp)
-	}
-
-	return bytePayload, nil
+	return unecxtendPayload(value[1 : len(value)-6])
 }
diff --git a/zencashTransaction/bech32.go b/zencashTransaction/bech32.go
index 45d1486..8b857e9 100644
--- a/zencashTransaction/bech32.go
+++ b/zencashTransaction/bech32.go
@@ -1,7 +1,6 @@
 package zencashTransaction
 
 import (
-	"encoding/hex"
 	"errors"
 	"strings"
 )
@@ -125,18 +124,25 @@ func extendPayload(payload []int8) []int8 {
 	return ret
 }
 
-func unecxtendPayload(extendedPayload []int8) []int8 {
-	length := len(extendedPayload) * 5 / 8
-
-	ret := make([]int8, length)
-
-	for i := 0; i < len(extendedPayload)-1; i++ {
-		ret[length-1] |= extendedPayload[i]
-		byteShl5(&ret)
+// unecxtendPayload regroups 5-bit digits into bytes; what is left over must be
+// less than a digit and zero, as BIP173 demands.
+func unecxtendPayload(extendedPayload []int8) ([]byte, error) {
+	ret := []byte{}
+	acc := uint32(0)
+	bits := uint(0)
+	for _, d := range extendedPayload {
+		acc = acc<<5 | uint32(d)
+		bits += 5
+		if bits >= 8 {
+			bits -= 8
+			ret = append(ret, byte(acc>>bits))
+			acc &= 1<<bits - 1
+		}
 	}
-	ret[length-1] |= extendedPayload[len(extendedPayload)-1]
-
-	return ret
+	if bits > 4 || acc != 0 {
+		return nil, ErrorInvalidAddress
+	}
+	return ret, nil
 }
 
 func Bech32Encode(prefix, alphabet string, payload []byte) string {
@@ -185,7 +191,7 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	if upper && lower {
+	if (upper && lower) || prefixSize == 0 {
 		return nil, ErrorInvalidAddress
 	}
 
@@ -205,20 +211,5 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	tmp := make([]int8, len(value)-6)
-	copy(tmp, value)
-
-	ret := unecxtendPayload(tmp)
-	bytePayload := make([]byte, len(ret))
-
-	for i := 0; i < len(ret); i++ {
-		bytePayload[i] = byte(ret[i])
-	}
-
-	if len(bytePayload) == 33 {
-		tmp := hex.EncodeToString(bytePayload)[1:65]
-		bytePayload, _ = hex.DecodeString(tmp)
-	}
-
-	return bytePayload, nil
+	return unecxtendPayload(value[1 : len(value)-6])
 }
-- 
2.43.0


From c2a50ebc034fdf82e76ac8d2cb36172d98940c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:49 +0000
Subject: [PATCH 76/76] fix: AddressCheck accepts Nebulas contract addresses
 that begin with n1

---
 addressEncoder/addressCheck.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/addressEncoder/addressCheck.go b/addressEncoder/addressCheck.go
index 6274c8a..3e138cb 100644
--- a/addressEncoder/addressCheck.go
+++ b/addressEncoder/addressCheck.go
@@ -411,6 +411,10 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 	case "NAS":
 		if addr[0] == 'n' && addr[1] == '1' {
 			_, err = AddressDecode(addr, NAS_AccountAddress)
+			if err != nil {
+				// contract addresses begin with n1 or n2
+				_, err = AddressDecode(addr, NAS_SmartContractAddress)
+			}
 			if err == nil {
 				return true, err
 			} else {
-- 
2.43.0

