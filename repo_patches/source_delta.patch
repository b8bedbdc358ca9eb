From 39ee54c3ac62201031d8bd9a5c90f66650531b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:06 +0000
Subject: [PATCH 01/29] fix: check register ranges without 16-bit overflow

The range checks added address, quantity, table start and size as uint16, so
a range that runs past address 65535 wrapped around and was accepted (panicking
with the node's lock held) and a table ending at 65535 was refused.
---
 register.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/register.go b/register.go
index 6bed37c..8f5c52f 100644
--- a/register.go
+++ b/register.go
@@ -123,7 +123,7 @@ func setBits(buf []byte, start, nBits uint16, value byte) {
 func (sf *NodeRegister) WriteCoils(address, quality uint16, valBuf []byte) error {
 	sf.rw.Lock()
 	if len(valBuf)*8 >= int(quality) && (address >= sf.coilsAddrStart) &&
-		((address + quality) <= (sf.coilsAddrStart + sf.coilsQuantity)) {
+		((int(address) + int(quality)) <= (int(sf.coilsAddrStart) + int(sf.coilsQuantity))) {
 		start := address - sf.coilsAddrStart
 		nCoils := int16(quality)
 		for idx := 0; nCoils > 0; idx++ {
@@ -155,7 +155,7 @@ func (sf *NodeRegister) WriteSingleCoil(address uint16, val bool) error {
 func (sf *NodeRegister) ReadCoils(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
 	if (address >= sf.coilsAddrStart) &&
-		((address + quality) <= (sf.coilsAddrStart + sf.coilsQuantity)) {
+		((int(address) + int(quality)) <= (int(sf.coilsAddrStart) + int(sf.coilsQuantity))) {
 		start := address - sf.coilsAddrStart
 		nCoils := int16(quality)
 		result := make([]byte, 0, (quality+7)/8)
@@ -187,7 +187,7 @@ func (sf *NodeRegister) ReadSingleCoil(address uint16) (bool, error) {
 func (sf *NodeRegister) WriteDiscretes(address, quality uint16, valBuf []byte) error {
 	sf.rw.Lock()
 	if len(valBuf)*8 >= int(quality) && (address >= sf.discreteAddrStart) &&
-		((address + quality) <= (sf.discreteAddrStart + sf.discreteQuantity)) {
+		((int(address) + int(quality)) <= (int(sf.discreteAddrStart) + int(sf.discreteQuantity))) {
 		start := address - sf.discreteAddrStart
 		nCoils := int16(quality)
 		for idx := 0; nCoils > 0; idx++ {
@@ -219,7 +219,7 @@ func (sf *NodeRegister) WriteSingleDiscrete(address uint16, val bool) error {
 func (sf *NodeRegister) ReadDiscretes(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
 	if (address >= sf.discreteAddrStart) &&
-		((address + quality) <= (sf.discreteAddrStart + sf.discreteQuantity)) {
+		((int(address) + int(quality)) <= (int(sf.discreteAddrStart) + int(sf.discreteQuantity))) {
 		start := address - sf.discreteAddrStart
 		nCoils := int16(quality)
 		result := make([]byte, 0, (quality+7)/8)
@@ -252,7 +252,7 @@ func (sf *NodeRegister) WriteHoldingsBytes(address, quality uint16, valBuf []byt
 	sf.rw.Lock()
 	if len(valBuf) == int(quality*2) &&
 		(address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+		((int(address) + int(quality)) <= (int(sf.holdingAddrStart) + len(sf.holding))) {
 		start := address - sf.holdingAddrStart
 		end := start + quality
 		buf := bytes.NewBuffer(valBuf)
@@ -272,7 +272,7 @@ func (sf *NodeRegister) WriteHoldings(address uint16, valBuf []uint16) error {
 	quality := uint16(len(valBuf))
 	sf.rw.Lock()
 	if (address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+		((int(address) + int(quality)) <= (int(sf.holdingAddrStart) + len(sf.holding))) {
 		start := address - sf.holdingAddrStart
 		end := start + quality
 		copy(sf.holding[start:end], valBuf)
@@ -287,7 +287,7 @@ func (sf *NodeRegister) WriteHoldings(address uint16, valBuf []uint16) error {
 func (sf *NodeRegister) ReadHoldingsBytes(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
 	if (address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+		((int(address) + int(quality)) <= (int(sf.holdingAddrStart) + len(sf.holding))) {
 		start := address - sf.holdingAddrStart
 		end := start + quality
 		buf := new(bytes.Buffer)
@@ -306,7 +306,7 @@ func (sf *NodeRegister) ReadHoldingsBytes(address, quality uint16) ([]byte, erro
 func (sf *NodeRegister) ReadHoldings(address, quality uint16) ([]uint16, error) {
 	sf.rw.RLock()
 	if (address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+		((int(address) + int(quality)) <= (int(sf.holdingAddrStart) + len(sf.holding))) {
 		start := address - sf.holdingAddrStart
 		end := start + quality
 		result := make([]uint16, quality)
@@ -323,7 +323,7 @@ func (sf *NodeRegister) WriteInputsBytes(address, quality uint16, regBuf []byte)
 	sf.rw.Lock()
 	if len(regBuf) == int(quality*2) &&
 		(address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+		((int(address) + int(quality)) <= (int(sf.inputAddrStart) + len(sf.input))) {
 		start := address - sf.inputAddrStart
 		end := start + quality
 		buf := bytes.NewBuffer(regBuf)
@@ -343,7 +343,7 @@ func (sf *NodeRegister) WriteInputs(address uint16, valBuf []uint16) error {
 	quality := uint16(len(valBuf))
 	sf.rw.Lock()
 	if (address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+		((int(address) + int(quality)) <= (int(sf.inputAddrStart) + len(sf.input))) {
 		start := address - sf.inputAddrStart
 		end := start + quality
 		copy(sf.input[start:end], valBuf)
@@ -358,7 +358,7 @@ func (sf *NodeRegister) WriteInputs(address uint16, valBuf []uint16) error {
 func (sf *NodeRegister) ReadInputsBytes(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
 	if (address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+		((int(address) + int(quality)) <= (int(sf.inputAddrStart) + len(sf.input))) {
 		start := address - sf.inputAddrStart
 		end := start + quality
 		buf := new(bytes.Buffer)
@@ -377,7 +377,7 @@ func (sf *NodeRegister) ReadInputsBytes(address, quality uint16) ([]byte, error)
 func (sf *NodeRegister) ReadInputs(address, quality uint16) ([]uint16, error) {
 	sf.rw.RLock()
 	if (address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+		((int(address) + int(quality)) <= (int(sf.inputAddrStart) + len(sf.input))) {
 		start := address - sf.inputAddrStart
 		end := start + quality
 		result := make([]uint16, quality)
@@ -393,7 +393,7 @@ func (sf *NodeRegister) ReadInputs(address, quality uint16) ([]uint16, error) {
 func (sf *NodeRegister) MaskWriteHolding(address, andMask, orMask uint16) error {
 	sf.rw.Lock()
 	if (address >= sf.holdingAddrStart) &&
-		((address + 1) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+		((int(address) + 1) <= (int(sf.holdingAddrStart) + len(sf.holding))) {
 		sf.holding[address] &= andMask
 		sf.holding[address] |= orMask & ^andMask
 		sf.rw.Unlock()
-- 
2.43.0


From 847b2267121d06cdfcf24dd65454c9d5a471fdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:06 +0000
Subject: [PATCH 02/29] fix: do not truncate bit quantities above 32767

The quantity was converted to int16: reads and writes of more than 32767 bits
silently did nothing and reported success.
---
 register.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/register.go b/register.go
index 8f5c52f..66c45fb 100644
--- a/register.go
+++ b/register.go
@@ -125,7 +125,7 @@ func (sf *NodeRegister) WriteCoils(address, quality uint16, valBuf []byte) error
 	if len(valBuf)*8 >= int(quality) && (address >= sf.coilsAddrStart) &&
 		((int(address) + int(quality)) <= (int(sf.coilsAddrStart) + int(sf.coilsQuantity))) {
 		start := address - sf.coilsAddrStart
-		nCoils := int16(quality)
+		nCoils := int(quality)
 		for idx := 0; nCoils > 0; idx++ {
 			num := nCoils
 			if nCoils > 8 {
@@ -157,7 +157,7 @@ func (sf *NodeRegister) ReadCoils(address, quality uint16) ([]byte, error) {
 	if (address >= sf.coilsAddrStart) &&
 		((int(address) + int(quality)) <= (int(sf.coilsAddrStart) + int(sf.coilsQuantity))) {
 		start := address - sf.coilsAddrStart
-		nCoils := int16(quality)
+		nCoils := int(quality)
 		result := make([]byte, 0, (quality+7)/8)
 		for ; nCoils > 0; nCoils -= 8 {
 			num := nCoils
@@ -189,7 +189,7 @@ func (sf *NodeRegister) WriteDiscretes(address, quality uint16, valBuf []byte) e
 	if len(valBuf)*8 >= int(quality) && (address >= sf.discreteAddrStart) &&
 		((int(address) + int(quality)) <= (int(sf.discreteAddrStart) + int(sf.discreteQuantity))) {
 		start := address - sf.discreteAddrStart
-		nCoils := int16(quality)
+		nCoils := int(quality)
 		for idx := 0; nCoils > 0; idx++ {
 			num := nCoils
 			if nCoils > 8 {
@@ -221,7 +221,7 @@ func (sf *NodeRegister) ReadDiscretes(address, quality uint16) ([]byte, error) {
 	if (address >= sf.discreteAddrStart) &&
 		((int(address) + int(quality)) <= (int(sf.discreteAddrStart) + int(sf.discreteQuantity))) {
 		start := address - sf.discreteAddrStart
-		nCoils := int16(quality)
+		nCoils := int(quality)
 		result := make([]byte, 0, (quality+7)/8)
 		for ; nCoils > 0; nCoils -= 8 {
 			num := nCoils
-- 
2.43.0


From 48019b8fca1e700737ac8280f27b2a4211475949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:57 +0000
Subject: [PATCH 03/29] fix: do not truncate register write quantities to 16
 bits

---
 register.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/register.go b/register.go
index 66c45fb..fa7ace0 100644
--- a/register.go
+++ b/register.go
@@ -250,7 +250,7 @@ func (sf *NodeRegister) ReadSingleDiscrete(address uint16) (bool, error) {
 // WriteHoldingsBytes 写保持寄存器
 func (sf *NodeRegister) WriteHoldingsBytes(address, quality uint16, valBuf []byte) error {
 	sf.rw.Lock()
-	if len(valBuf) == int(quality*2) &&
+	if len(valBuf) == int(quality)*2 &&
 		(address >= sf.holdingAddrStart) &&
 		((int(address) + int(quality)) <= (int(sf.holdingAddrStart) + len(sf.holding))) {
 		start := address - sf.holdingAddrStart
@@ -269,11 +269,11 @@ func (sf *NodeRegister) WriteHoldingsBytes(address, quality uint16, valBuf []byt
 
 // WriteHoldings 写保持寄存器
 func (sf *NodeRegister) WriteHoldings(address uint16, valBuf []uint16) error {
-	quality := uint16(len(valBuf))
+	quality := len(valBuf)
 	sf.rw.Lock()
 	if (address >= sf.holdingAddrStart) &&
-		((int(address) + int(quality)) <= (int(sf.holdingAddrStart) + len(sf.holding))) {
-		start := address - sf.holdingAddrStart
+		((int(address) + quality) <= (int(sf.holdingAddrStart) + len(sf.holding))) {
+		start := int(address - sf.holdingAddrStart)
 		end := start + quality
 		copy(sf.holding[start:end], valBuf)
 		sf.rw.Unlock()
@@ -321,7 +321,7 @@ func (sf *NodeRegister) ReadHoldings(address, quality uint16) ([]uint16, error)
 // WriteInputsBytes 写输入寄存器
 func (sf *NodeRegister) WriteInputsBytes(address, quality uint16, regBuf []byte) error {
 	sf.rw.Lock()
-	if len(regBuf) == int(quality*2) &&
+	if len(regBuf) == int(quality)*2 &&
 		(address >= sf.inputAddrStart) &&
 		((int(address) + int(quality)) <= (int(sf.inputAddrStart) + len(sf.input))) {
 		start := address - sf.inputAddrStart
@@ -340,11 +340,11 @@ func (sf *NodeRegister) WriteInputsBytes(address, quality uint16, regBuf []byte)
 
 // WriteInputs 写输入寄存器
 func (sf *NodeRegister) WriteInputs(address uint16, valBuf []uint16) error {
-	quality := uint16(len(valBuf))
+	quality := len(valBuf)
 	sf.rw.Lock()
 	if (address >= sf.inputAddrStart) &&
-		((int(address) + int(quality)) <= (int(sf.inputAddrStart) + len(sf.input))) {
-		start := address - sf.inputAddrStart
+		((int(address) + quality) <= (int(sf.inputAddrStart) + len(sf.input))) {
+		start := int(address - sf.inputAddrStart)
 		end := start + quality
 		copy(sf.input[start:end], valBuf)
 		sf.rw.Unlock()
-- 
2.43.0


From 1c624e67d243ed04715f1d4c7e56d9b4673eff2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:04 +0000
Subject: [PATCH 04/29] fix: mask write the addressed holding register when the
 table does not start at zero

---
 register.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/register.go b/register.go
index fa7ace0..2ac1dc7 100644
--- a/register.go
+++ b/register.go
@@ -394,8 +394,9 @@ func (sf *NodeRegister) MaskWriteHolding(address, andMask, orMask uint16) error
 	sf.rw.Lock()
 	if (address >= sf.holdingAddrStart) &&
 		((int(address) + 1) <= (int(sf.holdingAddrStart) + len(sf.holding))) {
-		sf.holding[address] &= andMask
-		sf.holding[address] |= orMask & ^andMask
+		idx := address - sf.holdingAddrStart
+		sf.holding[idx] &= andMask
+		sf.holding[idx] |= orMask & ^andMask
 		sf.rw.Unlock()
 		return nil
 	}
-- 
2.43.0


From a3771e7f3ce6ba0d3b04a7876f89571ec574ad1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:59 +0000
Subject: [PATCH 05/29] fix: do not crash the server on an oversized frame
 length

---
 server_tcp_session.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server_tcp_session.go b/server_tcp_session.go
index 839275d..8f58d8d 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -71,6 +71,10 @@ func (sf *ServerSession) running(ctx context.Context) {
 					continue
 				}
 				length = int(binary.BigEndian.Uint16(adu[4:])) + tcpHeaderMbapSize - 1
+				if length > tcpAduMaxSize {
+					err = fmt.Errorf("length of frame '%v' must not be bigger than '%v'", length, tcpAduMaxSize)
+					return
+				}
 				if rdCnt == length {
 					if err = sf.frameHandler(adu[:length]); err != nil {
 						return
-- 
2.43.0


From d6e9fd96ef1e4b4df65b870d850e3def29ac9a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:59 +0000
Subject: [PATCH 06/29] fix: skip frames with a foreign protocol id as a whole

---
 server_tcp_session.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/server_tcp_session.go b/server_tcp_session.go
index 8f58d8d..e9e4a26 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -65,17 +65,13 @@ func (sf *ServerSession) running(ctx context.Context) {
 			}
 			rdCnt += bytesRead
 			if rdCnt >= length {
-				// check head ProtocolIdentifier
-				if binary.BigEndian.Uint16(adu[2:]) != tcpProtocolIdentifier {
-					rdCnt, length = 0, tcpHeaderMbapSize
-					continue
-				}
 				length = int(binary.BigEndian.Uint16(adu[4:])) + tcpHeaderMbapSize - 1
 				if length > tcpAduMaxSize {
 					err = fmt.Errorf("length of frame '%v' must not be bigger than '%v'", length, tcpAduMaxSize)
 					return
 				}
-				if rdCnt == length {
+				// check head ProtocolIdentifier, a frame of another protocol is skipped as a whole
+				if rdCnt == length && binary.BigEndian.Uint16(adu[2:]) == tcpProtocolIdentifier {
 					if err = sf.frameHandler(adu[:length]); err != nil {
 						return
 					}
-- 
2.43.0


From d1b383dde357d722e7b6c8e4631b244eef89cddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:59 +0000
Subject: [PATCH 07/29] fix: make combined read/write atomic and check both
 ranges before writing

---
 function.go |  5 +----
 register.go | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/function.go b/function.go
index 7cddfd1..1cc7fc2 100644
--- a/function.go
+++ b/function.go
@@ -318,10 +318,7 @@ func funcReadWriteMultiHoldingRegisters(reg *NodeRegister, data []byte) ([]byte,
 		return nil, &ExceptionError{ExceptionCodeIllegalDataValue}
 	}
 
-	if err := reg.WriteHoldingsBytes(writeAddress, WriteCount, data[9:]); err != nil {
-		return nil, err
-	}
-	value, err := reg.ReadHoldingsBytes(readAddress, readCount)
+	value, err := reg.readWriteHoldingsBytes(readAddress, readCount, writeAddress, WriteCount, data[9:])
 	if err != nil {
 		return nil, err
 	}
diff --git a/register.go b/register.go
index 2ac1dc7..0071e8f 100644
--- a/register.go
+++ b/register.go
@@ -318,6 +318,26 @@ func (sf *NodeRegister) ReadHoldings(address, quality uint16) ([]uint16, error)
 	return nil, &ExceptionError{ExceptionCodeIllegalDataAddress}
 }
 
+// readWriteHoldingsBytes 读写保持寄存器,先写后读,两个范围都有效时才执行
+func (sf *NodeRegister) readWriteHoldingsBytes(readAddress, readQuality,
+	writeAddress, writeQuality uint16, valBuf []byte) ([]byte, error) {
+	sf.rw.Lock()
+	defer sf.rw.Unlock()
+
+	limit := int(sf.holdingAddrStart) + len(sf.holding)
+	if len(valBuf) != int(writeQuality)*2 ||
+		writeAddress < sf.holdingAddrStart || int(writeAddress)+int(writeQuality) > limit ||
+		readAddress < sf.holdingAddrStart || int(readAddress)+int(readQuality) > limit {
+		return nil, &ExceptionError{ExceptionCodeIllegalDataAddress}
+	}
+	start := int(writeAddress - sf.holdingAddrStart)
+	for i := range sf.holding[start : start+int(writeQuality)] {
+		sf.holding[start+i] = binary.BigEndian.Uint16(valBuf[i*2:])
+	}
+	start = int(readAddress - sf.holdingAddrStart)
+	return uint162Bytes(sf.holding[start : start+int(readQuality)]...), nil
+}
+
 // WriteInputsBytes 写输入寄存器
 func (sf *NodeRegister) WriteInputsBytes(address, quality uint16, regBuf []byte) error {
 	sf.rw.Lock()
-- 
2.43.0


From 9c379b11254ba00652a7a3123b518fbd853a2937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:00 +0000
Subject: [PATCH 08/29] fix: report other handler errors as server device
 failure

---
 server_tcp_session.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server_tcp_session.go b/server_tcp_session.go
index e9e4a26..79016ea 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -112,7 +112,11 @@ func (sf *ServerSession) frameHandler(requestAdu []byte) error {
 	}
 	if err != nil {
 		funcCode |= 0x80
-		rspPduData = []byte{err.(*ExceptionError).ExceptionCode}
+		exception, ok := err.(*ExceptionError)
+		if !ok { // any other error is reported as device failure
+			exception = &ExceptionError{ExceptionCodeServerDeviceFailure}
+		}
+		rspPduData = []byte{exception.ExceptionCode}
 	}
 
 	// prepare responseAdu data,fill it
-- 
2.43.0


From 99f16cdfc22029fba479fdaf03c75505a73b9287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:18 +0000
Subject: [PATCH 09/29] fix: require write payloads to have the announced
 length

---
 function.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/function.go b/function.go
index 1cc7fc2..aff4f0a 100644
--- a/function.go
+++ b/function.go
@@ -186,7 +186,7 @@ func funcWriteMultiCoils(reg *NodeRegister, data []byte) ([]byte, error) {
 	quality := binary.BigEndian.Uint16(data[2:])
 	byteCnt := data[4]
 	if quality < WriteBitsQuantityMin || quality > WriteBitsQuantityMax ||
-		byteCnt != byte((quality+7)/8) {
+		byteCnt != byte((quality+7)/8) || len(data)-FuncWriteMultiMinSize != int(byteCnt) {
 		return nil, &ExceptionError{ExceptionCodeIllegalDataValue}
 	}
 	err := reg.WriteCoils(address, quality, data[5:])
@@ -279,7 +279,7 @@ func funcWriteMultiHoldingRegisters(reg *NodeRegister, data []byte) ([]byte, err
 	count := binary.BigEndian.Uint16(data[2:])
 	byteCnt := data[4]
 	if count < WriteRegQuantityMin || count > WriteRegQuantityMax ||
-		uint16(byteCnt) != count*2 {
+		uint16(byteCnt) != count*2 || len(data)-FuncWriteMultiMinSize != int(byteCnt) {
 		return nil, &ExceptionError{ExceptionCodeIllegalDataValue}
 	}
 
@@ -314,7 +314,7 @@ func funcReadWriteMultiHoldingRegisters(reg *NodeRegister, data []byte) ([]byte,
 	writeByteCnt := data[8]
 	if readCount < ReadWriteOnReadRegQuantityMin || readCount > ReadWriteOnReadRegQuantityMax ||
 		WriteCount < ReadWriteOnWriteRegQuantityMin || WriteCount > ReadWriteOnWriteRegQuantityMax ||
-		uint16(writeByteCnt) != WriteCount*2 {
+		uint16(writeByteCnt) != WriteCount*2 || len(data)-FuncReadWriteMinSize != int(writeByteCnt) {
 		return nil, &ExceptionError{ExceptionCodeIllegalDataValue}
 	}
 
-- 
2.43.0


From e1313a43647081809f473cec213659fe9011de38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:59 +0000
Subject: [PATCH 10/29] fix: server close waits for a connection that is just
 being accepted

---
 server_tcp.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/server_tcp.go b/server_tcp.go
index 4249550..b615b4d 100644
--- a/server_tcp.go
+++ b/server_tcp.go
@@ -17,7 +17,7 @@ const (
 type TCPServer struct {
 	mu           sync.Mutex
 	listen       net.Listener
-	wg           sync.WaitGroup
+	wg           *sync.WaitGroup // accept loop and sessions of the current run
 	cancel       context.CancelFunc
 	readTimeout  time.Duration
 	writeTimeout time.Duration
@@ -55,8 +55,11 @@ func (sf *TCPServer) Close() error {
 		sf.cancel()
 		sf.listen = nil
 	}
+	wg := sf.wg
 	sf.mu.Unlock()
-	sf.wg.Wait()
+	if wg != nil {
+		wg.Wait()
+	}
 	return nil
 }
 
@@ -69,13 +72,17 @@ func (sf *TCPServer) ListenAndServe(addr string) error {
 		return err
 	}
 	ctx, cancel := context.WithCancel(context.Background())
+	wg := new(sync.WaitGroup)
+	wg.Add(1) // the accept loop, Close has to wait for a connection it is just accepting
 	sf.mu.Lock()
 	sf.listen = listen
 	sf.cancel = cancel
+	sf.wg = wg
 	sf.mu.Unlock()
 
 	sf.Debugf("server started,and listen address: %s", addr)
 	defer func() {
+		wg.Done()
 		sf.Close()
 		sf.Debugf("server stopped")
 	}()
@@ -95,7 +102,7 @@ func (sf *TCPServer) ListenAndServe(addr string) error {
 			return err
 		}
 		tempDelay = minTempDelay
-		sf.wg.Add(1)
+		wg.Add(1)
 		go func() {
 			sess := &ServerSession{
 				conn,
@@ -105,7 +112,7 @@ func (sf *TCPServer) ListenAndServe(addr string) error {
 				sf.logger,
 			}
 			sess.running(ctx)
-			sf.wg.Done()
+			wg.Done()
 		}()
 	}
 }
-- 
2.43.0


From c9e8d214cc3324c877c09d5119ecc8ca0330b83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:41 +0000
Subject: [PATCH 11/29] fix: read the ASCII reply after a successful write,
 close the port after a failed one

---
 client_ascii.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client_ascii.go b/client_ascii.go
index f47abea..dfe088a 100644
--- a/client_ascii.go
+++ b/client_ascii.go
@@ -175,7 +175,7 @@ func (sf *ASCIIClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []by
 	sf.Debugf("sending [% x]", aduRequest)
 
 	_, err = sf.port.Write(aduRequest)
-	if err == nil {
+	if err != nil {
 		sf.close()
 		return
 	}
-- 
2.43.0


From 492afaad0096e116ea77a9328a6f5453df75c378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:41 +0000
Subject: [PATCH 12/29] fix: refuse ASCII PDUs above 253 bytes instead of
 panicking

---
 modbus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus.go b/modbus.go
index 946798d..ccca52a 100644
--- a/modbus.go
+++ b/modbus.go
@@ -70,7 +70,7 @@ const (
 	rtuAduMaxSize = 256 // address(1) + PDU(253) + crc(2)
 
 	asciiAduMinSize       = 3
-	asciiAduMaxSize       = 256
+	asciiAduMaxSize       = 255 // address(1) + PDU(253) + lrc(1)
 	asciiCharacterMaxSize = 513
 
 	tcpProtocolIdentifier = 0x0000
-- 
2.43.0


From 26200a45f650d1d282f0943a18a207fff2a5ad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:29 +0000
Subject: [PATCH 13/29] fix: do not panic on RTU requests too short to carry a
 quantity

---
 client_rtu.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client_rtu.go b/client_rtu.go
index c0501d8..ea9eb4c 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -121,6 +121,10 @@ func (sf *RTUClientProvider) SendPdu(slaveID byte, pduRequest []byte) ([]byte, e
 
 // SendRawFrame send Adu frame
 func (sf *RTUClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte, err error) {
+	if len(aduRequest) < rtuAduMinSize {
+		return nil, fmt.Errorf("modbus: request length '%v' does not meet minimum '%v'", len(aduRequest), rtuAduMinSize)
+	}
+
 	sf.mu.Lock()
 	defer sf.mu.Unlock()
 
@@ -196,6 +200,9 @@ func (sf *RTUClientProvider) calculateDelay(chars int) time.Duration {
 
 func calculateResponseLength(adu []byte) int {
 	length := rtuAduMinSize
+	if len(adu) < 6 { // too short to carry a quantity
+		return length
+	}
 	switch adu[1] {
 	case FuncCodeReadDiscreteInputs,
 		FuncCodeReadCoils:
-- 
2.43.0


From 9c34df9bc9696c34af55697679af18c5adc8d009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:32 +0000
Subject: [PATCH 14/29] fix: combined read/write requires the reply to carry
 the requested quantity

---
 client.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index 5823a4c..2a864e3 100644
--- a/client.go
+++ b/client.go
@@ -493,12 +493,16 @@ func (sf *client) ReadWriteMultipleRegistersBytes(slaveID byte, readAddress, rea
 		FuncCode: FuncCodeReadWriteMultipleRegisters,
 		Data:     pduDataBlockSuffix(value, readAddress, readQuantity, writeAddress, writeQuantity),
 	})
-	if err != nil {
+
+	switch {
+	case err != nil:
 		return nil, err
-	}
-	if int(response.Data[0]) != (len(response.Data) - 1) {
+	case int(response.Data[0]) != (len(response.Data) - 1):
 		return nil, fmt.Errorf("modbus: response data size '%v' does not match count '%v'",
 			len(response.Data)-1, response.Data[0])
+	case uint16(response.Data[0]) != readQuantity*2:
+		return nil, fmt.Errorf("modbus: response data size '%v' does not match quantity to bytes '%v'",
+			response.Data[0], readQuantity*2)
 	}
 	return response.Data[1:], nil
 }
-- 
2.43.0


From 89e6f030debd447d38d724559de5539f30810696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:35 +0000
Subject: [PATCH 15/29] fix: check the FIFO count of a reply against its data

---
 client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client.go b/client.go
index 2a864e3..424f14f 100644
--- a/client.go
+++ b/client.go
@@ -560,6 +560,9 @@ func (sf *client) ReadFIFOQueue(slaveID byte, address uint16) ([]byte, error) {
 	case int(binary.BigEndian.Uint16(response.Data[2:])) > 31:
 		return nil, fmt.Errorf("modbus: fifo count '%v' is greater than expected '%v'",
 			binary.BigEndian.Uint16(response.Data[2:]), 31)
+	case len(response.Data)-4 != int(binary.BigEndian.Uint16(response.Data[2:]))*2:
+		return nil, fmt.Errorf("modbus: response data size '%v' does not match fifo count '%v'",
+			len(response.Data)-4, binary.BigEndian.Uint16(response.Data[2:]))
 	}
 	return response.Data[4:], nil
 }
-- 
2.43.0


From 005424ca3695701293ef46b01236284960985a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:38 +0000
Subject: [PATCH 16/29] fix: write multiple coils sends only the addressed
 value bytes

---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 424f14f..8d6a7a0 100644
--- a/client.go
+++ b/client.go
@@ -188,7 +188,7 @@ func (sf *client) WriteMultipleCoils(slaveID byte, address, quantity uint16, val
 
 	response, err := sf.Send(slaveID, ProtocolDataUnit{
 		FuncCode: FuncCodeWriteMultipleCoils,
-		Data:     pduDataBlockSuffix(value, address, quantity),
+		Data:     pduDataBlockSuffix(value[:(quantity+7)/8], address, quantity),
 	})
 
 	switch {
-- 
2.43.0


From 6c42a5276b8e9de8fe5589f83d4f20c40b2de959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:41 +0000
Subject: [PATCH 17/29] fix: only the request's own exception function code is
 an exception reply

---
 client_rtu.go | 6 +++++-
 client_tcp.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/client_rtu.go b/client_rtu.go
index ea9eb4c..13a9a88 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -238,9 +238,13 @@ func verify(reqSlaveID, rspSlaveID uint8, reqPDU, rspPDU ProtocolDataUnit) error
 	case reqSlaveID != rspSlaveID: // Check slaveID same
 		return fmt.Errorf("modbus: response slave id '%v' does not match request '%v'", rspSlaveID, reqSlaveID)
 
-	case rspPDU.FuncCode != reqPDU.FuncCode: // Check correct function code returned (exception)
+	case rspPDU.FuncCode == reqPDU.FuncCode|0x80 && rspPDU.FuncCode != reqPDU.FuncCode: // exception
 		return responseError(rspPDU)
 
+	case rspPDU.FuncCode != reqPDU.FuncCode: // Check correct function code returned
+		return fmt.Errorf("modbus: response function code '%v' does not match request '%v'",
+			rspPDU.FuncCode, reqPDU.FuncCode)
+
 	case rspPDU.Data == nil || len(rspPDU.Data) == 0: // check Empty response
 		return fmt.Errorf("modbus: response data is empty")
 	}
diff --git a/client_tcp.go b/client_tcp.go
index 7330b42..dcaf41b 100644
--- a/client_tcp.go
+++ b/client_tcp.go
@@ -136,9 +136,13 @@ func verifyTCPFrame(reqHead, rspHead protocolTCPHeader, reqPDU, rspPDU ProtocolD
 		return fmt.Errorf("modbus: response unit id '%v' does not match request '%v'",
 			rspHead.slaveID, reqHead.slaveID)
 
-	case rspPDU.FuncCode != reqPDU.FuncCode: // Check correct function code returned (exception)
+	case rspPDU.FuncCode == reqPDU.FuncCode|0x80 && rspPDU.FuncCode != reqPDU.FuncCode: // exception
 		return responseError(rspPDU)
 
+	case rspPDU.FuncCode != reqPDU.FuncCode: // Check correct function code returned
+		return fmt.Errorf("modbus: response function code '%v' does not match request '%v'",
+			rspPDU.FuncCode, reqPDU.FuncCode)
+
 	case rspPDU.Data == nil || len(rspPDU.Data) == 0: // check Empty response
 		return fmt.Errorf("modbus: response data is empty")
 	}
-- 
2.43.0


From f8260bffc7dff9e11a787c883de94d59c1749e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 18/29] fix: read a FIFO queue reply over RTU whole when it
 arrives in pieces

---
 client_rtu.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client_rtu.go b/client_rtu.go
index 13a9a88..67becb9 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -156,6 +156,10 @@ func (sf *RTUClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 
 	switch {
 	case data[1] == function:
+		// the length of a FIFO queue response is told by its byte count
+		if function == FuncCodeReadFIFOQueue {
+			bytesToRead = rtuAduMinSize + 2 + int(binary.BigEndian.Uint16(data[2:]))
+		}
 		// if the function is correct
 		// we read the rest of the bytes
 		if n < bytesToRead {
-- 
2.43.0


From e8fda62b8a643a9992195312ae16c97658e4afe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:03 +0000
Subject: [PATCH 19/29] fix: drop the TCP connection after a failed exchange

---
 client_tcp.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client_tcp.go b/client_tcp.go
index dcaf41b..6cd370c 100644
--- a/client_tcp.go
+++ b/client_tcp.go
@@ -216,6 +216,12 @@ func (sf *TCPClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 	if err = sf.connect(); err != nil {
 		return
 	}
+	// what is left of a failed exchange must not be taken for the next reply
+	defer func() {
+		if err != nil {
+			sf.close()
+		}
+	}()
 	// Send data
 	sf.Debugf("sending [% x]", aduRequest)
 	// Set write and read timeout
-- 
2.43.0


From d00d1decf42a0e0f46d44682ddad9ed12486647f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:03 +0000
Subject: [PATCH 20/29] fix: do not wait for an RTU reply longer than any frame

---
 client_rtu.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client_rtu.go b/client_rtu.go
index 67becb9..802ab59 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -231,6 +231,9 @@ func calculateResponseLength(adu []byte) int {
 		// undetermined
 	default:
 	}
+	if length > rtuAduMaxSize { // no reply can be this long, undetermined
+		length = rtuAduMinSize
+	}
 	return length
 }
 
-- 
2.43.0


From 84792a359da57ceaa619342e413583543b21ee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 21/29] fix: close the connection a reverse server's connect
 callback refused

---
 server_tcp_special.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index 818c9bb..800e489 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -207,6 +207,7 @@ func (sf *TCPServerSpecial) run() {
 		sf.Debugf("connect success")
 		sf.conn = conn
 		if err := sf.onConnect(sf); err != nil {
+			conn.Close()
 			time.Sleep(sf.reconnectInterval)
 			continue
 		}
-- 
2.43.0


From 3216794d1389f256b78b9bfef868d7244d65e34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:57 +0000
Subject: [PATCH 22/29] fix: do not reconnect a lost reverse connection without
 auto reconnect

---
 server_tcp_special.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index 800e489..028d7c4 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -234,6 +234,9 @@ func (sf *TCPServerSpecial) run() {
 		sf.setConnectStatus(disconnected)
 		sf.onConnectionLost(sf)
 		close(stopKeepAlive)
+		if !sf.autoReconnect {
+			return
+		}
 		select {
 		case <-ctx.Done():
 			return
-- 
2.43.0


From 47a389b976fab30f188305879333406c289f3058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:57 +0000
Subject: [PATCH 23/29] fix: stop keep alive before the connection lost
 callback

---
 server_tcp_special.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index 028d7c4..81f2353 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -232,8 +232,8 @@ func (sf *TCPServerSpecial) run() {
 		sf.setConnectStatus(connected)
 		sf.running(ctx)
 		sf.setConnectStatus(disconnected)
-		sf.onConnectionLost(sf)
 		close(stopKeepAlive)
+		sf.onConnectionLost(sf)
 		if !sf.autoReconnect {
 			return
 		}
-- 
2.43.0


From 7321805f3c945d306c6f26581aba5ab027299d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:57 +0000
Subject: [PATCH 24/29] fix: do not lose a close right after start of the
 reverse server

---
 server_tcp_special.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index 81f2353..af4a935 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -166,21 +166,19 @@ func (sf *TCPServerSpecial) Start() error {
 	if sf.server == nil {
 		return errors.New("empty remote server address,add it first")
 	}
-	go sf.run()
-	return nil
-}
-
-// 增加间隔
-func (sf *TCPServerSpecial) run() {
-	var ctx context.Context
-
 	sf.rwMux.Lock()
+	defer sf.rwMux.Unlock()
 	if !atomic.CompareAndSwapUint32(&sf.status, initial, disconnected) {
-		sf.rwMux.Unlock()
-		return
+		return nil
 	}
+	var ctx context.Context
 	ctx, sf.cancel = context.WithCancel(context.Background())
-	sf.rwMux.Unlock()
+	go sf.run(ctx)
+	return nil
+}
+
+// 增加间隔
+func (sf *TCPServerSpecial) run(ctx context.Context) {
 	defer func() {
 		sf.setConnectStatus(initial)
 		sf.Debugf("tcp server special stop!")
-- 
2.43.0


From 3bf0e643e5db9c7fa8da4bb4bfbca91fb48e1081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 25/29] fix: no keep alive once the connection is lost

---
 server_tcp_special.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index af4a935..3714855 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -222,6 +222,11 @@ func (sf *TCPServerSpecial) run(ctx context.Context) {
 					case <-stopKeepAlive:
 						return
 					case <-tick.C:
+						select {
+						case <-stopKeepAlive:
+							return
+						default:
+						}
 						sf.onKeepAlive(sf)
 					}
 				}
-- 
2.43.0


From 97e6693dbffac5a450520b44cff7d9e9df6fb6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:59 +0000
Subject: [PATCH 26/29] fix: guard the reverse server's connection against
 UnderlyingConn

---
 server_tcp_special.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index 3714855..7841d64 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -75,6 +75,8 @@ func NewTCPServerSpecial() *TCPServerSpecial {
 
 // UnderlyingConn got underlying tcp conn
 func (sf *TCPServerSpecial) UnderlyingConn() net.Conn {
+	sf.rwMux.RLock()
+	defer sf.rwMux.RUnlock()
 	return sf.conn
 }
 
@@ -203,7 +205,9 @@ func (sf *TCPServerSpecial) run(ctx context.Context) {
 			continue
 		}
 		sf.Debugf("connect success")
+		sf.rwMux.Lock()
 		sf.conn = conn
+		sf.rwMux.Unlock()
 		if err := sf.onConnect(sf); err != nil {
 			conn.Close()
 			time.Sleep(sf.reconnectInterval)
-- 
2.43.0


From e29cf41819a8eeb3887d14661481a1274b98fbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 27/29] fix: do not copy the logger, so that switching it
 reaches live sessions and is race free

---
 log.go                | 4 ++--
 server_tcp.go         | 2 +-
 server_tcp_session.go | 2 +-
 server_tcp_special.go | 3 ++-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/log.go b/log.go
index 7a52e22..946c81d 100644
--- a/log.go
+++ b/log.go
@@ -40,14 +40,14 @@ func (sf *logger) setLogProvider(p LogProvider) {
 }
 
 // Error Log ERROR level message.
-func (sf logger) Errorf(format string, v ...interface{}) {
+func (sf *logger) Errorf(format string, v ...interface{}) {
 	if atomic.LoadUint32(&sf.has) == 1 {
 		sf.provider.Errorf(format, v...)
 	}
 }
 
 // Debug Log DEBUG level message.
-func (sf logger) Debugf(format string, v ...interface{}) {
+func (sf *logger) Debugf(format string, v ...interface{}) {
 	if atomic.LoadUint32(&sf.has) == 1 {
 		sf.provider.Debugf(format, v...)
 	}
diff --git a/server_tcp.go b/server_tcp.go
index b615b4d..1051770 100644
--- a/server_tcp.go
+++ b/server_tcp.go
@@ -109,7 +109,7 @@ func (sf *TCPServer) ListenAndServe(addr string) error {
 				sf.readTimeout,
 				sf.writeTimeout,
 				sf.serverCommon,
-				sf.logger,
+				&sf.logger,
 			}
 			sess.running(ctx)
 			wg.Done()
diff --git a/server_tcp_session.go b/server_tcp_session.go
index 79016ea..e0ccda6 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -17,7 +17,7 @@ type ServerSession struct {
 	readTimeout  time.Duration
 	writeTimeout time.Duration
 	*serverCommon
-	logger
+	*logger
 }
 
 // handler net conn
diff --git a/server_tcp_special.go b/server_tcp_special.go
index 7841d64..6d6486c 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -55,12 +55,13 @@ type TCPServerSpecial struct {
 
 // NewTCPServerSpecial new tcp server special, default enable auto reconnect
 func NewTCPServerSpecial() *TCPServerSpecial {
+	log := newLogger("modbusTCPServerSpec => ")
 	return &TCPServerSpecial{
 		ServerSession: ServerSession{
 			readTimeout:  TCPDefaultReadTimeout,
 			writeTimeout: TCPDefaultWriteTimeout,
 			serverCommon: newServerCommon(),
-			logger:       newLogger("modbusTCPServerSpec => "),
+			logger:       &log,
 		},
 		autoReconnect:     true,
 		enableKeepAlive:   false,
-- 
2.43.0


From fff0507b8153a2a25438016226b2a72c35ad384c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:28 +0000
Subject: [PATCH 28/29] fix: read a node's unit id under its lock when adding
 it

---
 function.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/function.go b/function.go
index aff4f0a..6b81931 100644
--- a/function.go
+++ b/function.go
@@ -44,7 +44,7 @@ func newServerCommon() *serverCommon {
 // AddNodes 增加节点.
 func (sf *serverCommon) AddNodes(nodes ...*NodeRegister) {
 	for _, v := range nodes {
-		sf.node.Store(v.slaveID, v)
+		sf.node.Store(v.SlaveID(), v)
 	}
 }
 
-- 
2.43.0


From 4d3b1dd39915a78e93f7c6a0c6f1e3cb3a169403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:47 +0000
Subject: [PATCH 29/29] fix: a serial port that hangs up ends the exchange,
 instead of being polled forever

---
 serial.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/serial.go b/serial.go
index 5ae500f..a123424 100644
--- a/serial.go
+++ b/serial.go
@@ -34,7 +34,7 @@ func (sf *serialPort) connect() error {
 		if err != nil {
 			return err
 		}
-		sf.port = port
+		sf.port = hangupPort{port}
 	}
 	return nil
 }
@@ -69,3 +69,18 @@ func (sf *serialPort) Close() (err error) {
 	sf.mu.Unlock()
 	return
 }
+
+// hangupPort reports a port that was hung up, which reads nothing without an error, as end of file,
+// otherwise waiting for the rest of a reply would never end.
+type hangupPort struct {
+	io.ReadWriteCloser
+}
+
+// Read implements io.Reader.
+func (sf hangupPort) Read(b []byte) (int, error) {
+	n, err := sf.ReadWriteCloser.Read(b)
+	if n == 0 && err == nil && len(b) > 0 {
+		err = io.EOF
+	}
+	return n, err
+}
-- 
2.43.0

