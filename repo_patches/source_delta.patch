From 087978c61eaded8f2c4c443f838c77fca9874726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 01/33] fix: reject packets whose header length contradicts the
 header instead of panicking

---
 libs/egts/egts_pkg.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index c40d6cb..3b728cb 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -101,7 +101,13 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить crc заголовка: %v", err)
 	}
 
-	if p.HeaderCheckSum != crc8(content[:p.HeaderLength-1]) {
+	// заявленная длина заголовка должна совпадать с фактической, иначе границы пакета не определены
+	headerLen := len(content) - buf.Len()
+	if int(p.HeaderLength) != headerLen {
+		return egtsPcIncHeaderform, fmt.Errorf("Не верная длина заголовка пакета: %d", p.HeaderLength)
+	}
+
+	if p.HeaderCheckSum != crc8(content[:headerLen-1]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма заголовка пакета")
 	}
 
@@ -130,7 +136,7 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
-	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:uint16(p.HeaderLength)+p.FrameDataLength]) {
+	if p.ServicesFrameDataCheckSum != crc16(dataFrameBytes) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
-- 
2.43.0


From 2acc21a2d3e1f3df1d7bd664e15c32b81f5ced01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 02/33] fix: report a wrong body checksum as a data checksum
 error (138)

---
 libs/egts/egts_pkg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 3b728cb..76b5486 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -137,7 +137,7 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
 	if p.ServicesFrameDataCheckSum != crc16(dataFrameBytes) {
-		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
+		return egtsPcDatacrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
 }
-- 
2.43.0


From 04bc980a884f551489e9ec06dc4dc85825016205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 03/33] fix: store the second counter of COUNTERS_DATA in its
 own field

---
 libs/egts/egts_sr_counters_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index ebae25d..454cdc0 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -65,7 +65,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
-		c.Counter1 = binary.LittleEndian.Uint32(counterVal)
+		c.Counter2 = binary.LittleEndian.Uint32(counterVal)
 	}
 
 	if c.CounterFieldExists3 == "1" {
-- 
2.43.0


From 8558009ae702f31b44fd2f696358f88f6b12bebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 04/33] fix: encode the analog sensor flags of AD_SENSORS_DATA
 in the order they are decoded

---
 libs/egts/egts_sr_ad_sensors_data.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 2b7f651..85fa38c 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -234,14 +234,14 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать битовые флаги дискретных выходов: %v", err)
 	}
 
-	flagsBits = e.AnalogSensorFieldExists1 +
-		e.AnalogSensorFieldExists2 +
-		e.AnalogSensorFieldExists3 +
-		e.AnalogSensorFieldExists4 +
-		e.AnalogSensorFieldExists5 +
-		e.AnalogSensorFieldExists6 +
+	flagsBits = e.AnalogSensorFieldExists8 +
 		e.AnalogSensorFieldExists7 +
-		e.AnalogSensorFieldExists8
+		e.AnalogSensorFieldExists6 +
+		e.AnalogSensorFieldExists5 +
+		e.AnalogSensorFieldExists4 +
+		e.AnalogSensorFieldExists3 +
+		e.AnalogSensorFieldExists2 +
+		e.AnalogSensorFieldExists1
 
 	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт аналоговых выходов ad_sesor_data: %v", err)
-- 
2.43.0


From 57e8a9b887b618132b0f92056b7d6d0d1e0d53f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 05/33] fix: read the three bytes of the altitude, not four

---
 libs/egts/egts_sr_pos_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 3f823db..1ddd9c4 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -119,7 +119,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	if e.ALTE == "1" {
 		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = buf.Read(bytesTmpBuf); err != nil {
+		if _, err = buf.Read(bytesTmpBuf[:3]); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
-- 
2.43.0


From f186c7d500a33a8cb856677341af9e0dc145f47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 06/33] fix: infer the subrecord type of DISPATCHER_IDENTITY
 when encoding

---
 libs/egts/record_data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index bbcf14d..c8922d2 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -123,6 +123,8 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 				rd.SubrecordType = SrEgtsPlusDataType
 			case *SrAbsAnSensData:
 				rd.SubrecordType = SrAbsAnSensDataType
+			case *SrDispatcherIdentity:
+				rd.SubrecordType = SrDispatcherIdentityType
 			default:
 				return result, fmt.Errorf("не известен код для данного типа подзаписи")
 			}
-- 
2.43.0


From cfe085175da7e63877eca1c303ed3146dd9765cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 07/33] fix: do not lose the last bit of coordinates when a
 decoded position is encoded

---
 libs/egts/egts_sr_pos_data.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 1ddd9c4..6675f55 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"strconv"
 	"time"
 )
@@ -145,12 +146,12 @@ func (e *SrPosData) Encode() ([]byte, error) {
 	}
 
 	// В протоколе значение хранится в виде: широта по модулю, градусы/90*0xFFFFFFFF  и взята целая часть
-	if err = binary.Write(buf, binary.LittleEndian, uint32(e.Latitude/90*0xFFFFFFFF)); err != nil {
+	if err = binary.Write(buf, binary.LittleEndian, uint32(math.Round(e.Latitude/90*0xFFFFFFFF))); err != nil {
 		return result, fmt.Errorf("Не удалось записать широту: %v", err)
 	}
 
 	// В протоколе значение хранится в виде: долгота по модулю, градусы/180*0xFFFFFFFF  и взята целая часть
-	if err = binary.Write(buf, binary.LittleEndian, uint32(e.Longitude/180*0xFFFFFFFF)); err != nil {
+	if err = binary.Write(buf, binary.LittleEndian, uint32(math.Round(e.Longitude/180*0xFFFFFFFF))); err != nil {
 		return result, fmt.Errorf("Не удалось записать долготу: %v", err)
 	}
 
-- 
2.43.0


From 63cb328cc5a706b0a23a342e52347ca42dc7e070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 08/33] fix: reject truncated data instead of filling the
 missing bytes with zeros

---
 libs/egts/egts_pkg.go                    | 26 ++++++++++++++++++------
 libs/egts/egts_pt_response.go            |  3 ++-
 libs/egts/egts_sr_abs_cntr_data.go       |  3 ++-
 libs/egts/egts_sr_ad_sensors_data.go     | 17 ++++++++--------
 libs/egts/egts_sr_counters_data.go       | 17 ++++++++--------
 libs/egts/egts_sr_dispatcher_identity.go |  3 ++-
 libs/egts/egts_sr_ext_pos_data.go        |  9 ++++----
 libs/egts/egts_sr_liquid_level_sensor.go | 11 ++++++++--
 libs/egts/egts_sr_pos_data.go            | 13 ++++++------
 libs/egts/egts_sr_response.go            |  3 ++-
 libs/egts/egts_sr_term_identity.go       | 17 ++++++++--------
 libs/egts/record_data.go                 |  6 +++++-
 libs/egts/service_data_records.go        | 26 ++++++++++++++++++------
 13 files changed, 101 insertions(+), 53 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 76b5486..54d8bdf 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -67,12 +68,12 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	}
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить длину секции данных: %v", err)
 	}
 	p.FrameDataLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить идентификатор пакета: %v", err)
 	}
 	p.PacketIdentifier = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -82,12 +83,12 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	}
 
 	if p.Route == "1" {
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить адрес апк отправителя: %v", err)
 		}
 		p.PeerAddress = binary.LittleEndian.Uint16(tmpIntBuf)
 
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить адрес апк получателя: %v", err)
 		}
 		p.RecipientAddress = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -111,8 +112,11 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма заголовка пакета")
 	}
 
+	if p.FrameDataLength == 0 {
+		return egtsPcIncDataform, fmt.Errorf("Отсутствует тело пакета")
+	}
 	dataFrameBytes := make([]byte, p.FrameDataLength)
-	if _, err = buf.Read(dataFrameBytes); err != nil {
+	if _, err = io.ReadFull(buf, dataFrameBytes); err != nil {
 		return egtsPcIncDataform, fmt.Errorf("Не считать тело пакета: %v", err)
 	}
 	switch p.PacketType {
@@ -130,8 +134,18 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 		return egtsPcDecryptError, err
 	}
 
+	records := p.ServicesFrameData
+	if resp, ok := records.(*PtResponse); ok {
+		records = resp.SDR
+	}
+	if sds, ok := records.(*ServiceDataSet); ok {
+		if err = sds.complete(); err != nil {
+			return egtsPcDecryptError, err
+		}
+	}
+
 	crcBytes := make([]byte, 2)
-	if _, err = buf.Read(crcBytes); err != nil {
+	if _, err = io.ReadFull(buf, crcBytes); err != nil {
 		return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
diff --git a/libs/egts/egts_pt_response.go b/libs/egts/egts_pt_response.go
index 0f1aa4f..e48cdc5 100644
--- a/libs/egts/egts_pt_response.go
+++ b/libs/egts/egts_pt_response.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //PtResponse структура подзаписи типа EGTS_PT_RESPONSE
@@ -21,7 +22,7 @@ func (s *PtResponse) Decode(content []byte) error {
 	buf := bytes.NewBuffer(content)
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить идентификатор пакета из ответа: %v", err)
 	}
 	s.ResponsePacketID = binary.LittleEndian.Uint16(tmpIntBuf)
diff --git a/libs/egts/egts_sr_abs_cntr_data.go b/libs/egts/egts_sr_abs_cntr_data.go
index 6976c0f..00ee94d 100644
--- a/libs/egts/egts_sr_abs_cntr_data.go
+++ b/libs/egts/egts_sr_abs_cntr_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //SrAbsCntrData структура подзаписи типа EGTS_SR_ABS_CNTR_DATA, которая применяется
@@ -26,7 +27,7 @@ func (e *SrAbsCntrData) Decode(content []byte) error {
 	}
 
 	tmpBuf := make([]byte, 3)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить значение показаний счетного входа: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 85fa38c..631cae4 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -138,7 +139,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if e.AnalogSensorFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS1: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -146,7 +147,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS2: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -154,7 +155,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS3: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -162,7 +163,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS4: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -170,7 +171,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS5: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -178,7 +179,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS6: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -186,7 +187,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS7: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -194,7 +195,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS8: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index 454cdc0..1aa445a 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -53,7 +54,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if c.CounterFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN1: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -61,7 +62,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -69,7 +70,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN3: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -77,7 +78,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN4: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -85,7 +86,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN5: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -93,7 +94,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN6: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -101,7 +102,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN7: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -109,7 +110,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN8: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_dispatcher_identity.go b/libs/egts/egts_sr_dispatcher_identity.go
index 0eb5f33..6327246 100644
--- a/libs/egts/egts_sr_dispatcher_identity.go
+++ b/libs/egts/egts_sr_dispatcher_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 // SrDispatcherIdentity структура подзаписи типа EGTS_SR_DISPATCHER_IDENTITY, которая используется
@@ -26,7 +27,7 @@ func (d *SrDispatcherIdentity) Decode(content []byte) error {
 	}
 
 	tmpIntBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить уникальный идентификатор диспетчера: %v", err)
 	}
 	d.DispatcherID = binary.LittleEndian.Uint32(tmpIntBuf)
diff --git a/libs/egts/egts_sr_ext_pos_data.go b/libs/egts/egts_sr_ext_pos_data.go
index f2ea748..b7ab165 100644
--- a/libs/egts/egts_sr_ext_pos_data.go
+++ b/libs/egts/egts_sr_ext_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -44,21 +45,21 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	e.VdopFieldExists = flagBits[7:]
 
 	if e.VdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в вертикальной плоскости: %v", err)
 		}
 		e.VerticalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.HdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в горизонтальной плоскости: %v", err)
 		}
 		e.HorizontalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.PdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности по местоположению: %v", err)
 		}
 		e.PositionDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
@@ -71,7 +72,7 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	}
 
 	if e.NavigationSystemFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить битовые флаги спутниковых систем: %v", err)
 		}
 		e.NavigationSystem = binary.LittleEndian.Uint16(tmpBuf)
diff --git a/libs/egts/egts_sr_liquid_level_sensor.go b/libs/egts/egts_sr_liquid_level_sensor.go
index 2df3469..d2a7dd0 100644
--- a/libs/egts/egts_sr_liquid_level_sensor.go
+++ b/libs/egts/egts_sr_liquid_level_sensor.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -42,13 +43,19 @@ func (e *SrLiquidLevelSensor) Decode(content []byte) error {
 	e.LiquidLevelSensorNumber = uint8(sensNum)
 
 	bytesTmpBuf := make([]byte, 2)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить адрес модуля ДУЖ: %v", err)
 	}
 	e.ModuleAddress = binary.LittleEndian.Uint16(bytesTmpBuf)
 
 	bytesTmpBuf = make([]byte, 4)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if e.RawDataFlag == "1" {
+		// сырые данные датчика имеют произвольную длину
+		_, err = buf.Read(bytesTmpBuf)
+	} else {
+		_, err = io.ReadFull(buf, bytesTmpBuf)
+	}
+	if err != nil {
 		return fmt.Errorf("Не удалось получить показания ДУЖ: %v", err)
 	}
 	e.LiquidLevelSensorData = binary.LittleEndian.Uint32(bytesTmpBuf)
diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 6675f55..9289e36 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"math"
 	"strconv"
 	"time"
@@ -46,14 +47,14 @@ func (e *SrPosData) Decode(content []byte) error {
 	// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 	startDate := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
 	tmpUint32Buf := make([]byte, 4)
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить время навигации: %v", err)
 	}
 	preFieldVal := binary.LittleEndian.Uint32(tmpUint32Buf)
 	e.NavigationTime = startDate.Add(time.Duration(preFieldVal) * time.Second)
 
 	// В протоколе значение хранится в виде: широта по модулю, градусы/90*0xFFFFFFFF  и взята целая часть
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить широту: %v", err)
 	}
 
@@ -61,7 +62,7 @@ func (e *SrPosData) Decode(content []byte) error {
 	e.Latitude = float64(float64(preFieldVal) * 90 / 0xFFFFFFFF)
 
 	// В протоколе значение хранится в виде: долгота по модулю, градусы/180*0xFFFFFFFF  и взята целая часть
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить время долгату: %v", err)
 	}
 	preFieldVal = binary.LittleEndian.Uint32(tmpUint32Buf)
@@ -83,7 +84,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	// скорость
 	tmpUint16Buf := make([]byte, 2)
-	if _, err = buf.Read(tmpUint16Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint16Buf); err != nil {
 		return fmt.Errorf("Не удалось получить скорость: %v", err)
 	}
 	spd := binary.LittleEndian.Uint16(tmpUint16Buf)
@@ -104,7 +105,7 @@ func (e *SrPosData) Decode(content []byte) error {
 	e.Direction |= e.DirectionHighestBit << 7
 
 	bytesTmpBuf := make([]byte, 3)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить пройденное расстояние (пробег) в км: %v", err)
 	}
 	bytesTmpBuf = append(bytesTmpBuf, 0x00)
@@ -120,7 +121,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	if e.ALTE == "1" {
 		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = buf.Read(bytesTmpBuf[:3]); err != nil {
+		if _, err = io.ReadFull(buf, bytesTmpBuf[:3]); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
diff --git a/libs/egts/egts_sr_response.go b/libs/egts/egts_sr_response.go
index b9f193d..31b8921 100644
--- a/libs/egts/egts_sr_response.go
+++ b/libs/egts/egts_sr_response.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //SrResponse структура подзаписи типа EGTS_SR_RESPONSE, которая применяется для подтверждения
@@ -21,7 +22,7 @@ func (s *SrResponse) Decode(content []byte) error {
 	buf := bytes.NewBuffer(content)
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить номер подтверждаемой записи: %v", err)
 	}
 	s.ConfirmedRecordNumber = binary.LittleEndian.Uint16(tmpIntBuf)
diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index 9b8fcb3..7a659dc 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -37,7 +38,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 	buf := bytes.NewReader(content)
 
 	tmpBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить идентификатор терминал при авторизации")
 	}
 	e.TerminalIdentifier = binary.LittleEndian.Uint32(tmpBuf)
@@ -57,7 +58,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.HDIDE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить идентификатор «домашней» телематической платформы при авторизации")
 		}
 		e.HomeDispatcherIdentifier = binary.LittleEndian.Uint16(tmpBuf)
@@ -66,7 +67,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMEIE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMEI при авторизации")
 		}
 		e.IMEI = string(tmpBuf)
@@ -74,7 +75,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMSIE == "1" {
 		tmpBuf = make([]byte, 16)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMSI при авторизации")
 		}
 		e.IMSI = string(tmpBuf)
@@ -82,7 +83,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.LNGCE == "1" {
 		tmpBuf = make([]byte, 3)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить код языка при авторизации")
 		}
 		e.LanguageCode = string(tmpBuf)
@@ -90,14 +91,14 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.NIDE == "1" {
 		e.NetworkIdentifier = make([]byte, 3)
-		if _, err = buf.Read(e.NetworkIdentifier); err != nil {
+		if _, err = io.ReadFull(buf, e.NetworkIdentifier); err != nil {
 			return fmt.Errorf("Не удалось получить код идентификатор сети оператора при авторизации")
 		}
 	}
 
 	if e.BSE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить максимальный размер буфера при авторизации")
 		}
 		e.BufferSize = binary.LittleEndian.Uint16(tmpBuf)
@@ -105,7 +106,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.MNE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить телефонный номер мобильного абонента")
 		}
 		e.MobileNumber = string(tmpBuf)
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index c8922d2..39598f0 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //RecordData структура секции подзапси у записи ServiceDataRecord
@@ -29,11 +30,14 @@ func (rds *RecordDataSet) Decode(recDS []byte) error {
 		}
 
 		tmpIntBuf := make([]byte, 2)
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("Не удалось получить длину записи subrecord data: %v", err)
 		}
 		rd.SubrecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
+		if buf.Len() < int(rd.SubrecordLength) {
+			return fmt.Errorf("Длина подзаписи %d больше оставшихся данных: %d", rd.SubrecordLength, buf.Len())
+		}
 		subRecordBytes := buf.Next(int(rd.SubrecordLength))
 
 		switch rd.SubrecordType {
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 7a5b635..7e8656d 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -40,12 +41,12 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 	for buf.Len() > 0 {
 		sdr := ServiceDataRecord{}
 		tmpIntBuf := make([]byte, 2)
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("Не удалось получить длину записи SDR: %v", err)
 		}
 		sdr.RecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("Не удалось получить номер записи SDR: %v", err)
 		}
 		sdr.RecordNumber = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -64,7 +65,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 
 		if sdr.ObjectIDFieldExists == "1" {
 			oid := make([]byte, 4)
-			if _, err := buf.Read(oid); err != nil {
+			if _, err := io.ReadFull(buf, oid); err != nil {
 				return fmt.Errorf("Не удалось получить идентификатор объекта SDR: %v", err)
 			}
 			sdr.ObjectIdentifier = binary.LittleEndian.Uint32(oid)
@@ -72,7 +73,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 
 		if sdr.EventIDFieldExists == "1" {
 			event := make([]byte, 4)
-			if _, err := buf.Read(event); err != nil {
+			if _, err := io.ReadFull(buf, event); err != nil {
 				return fmt.Errorf("Не удалось получить идентификатор события SDR: %v", err)
 			}
 			sdr.EventIdentifier = binary.LittleEndian.Uint32(event)
@@ -80,7 +81,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 
 		if sdr.TimeFieldExists == "1" {
 			tm := make([]byte, 4)
-			if _, err := buf.Read(tm); err != nil {
+			if _, err := io.ReadFull(buf, tm); err != nil {
 				return fmt.Errorf("Не удалось получить время формирования записи на стороне отправителя SDR: %v", err)
 			}
 			sdr.Time = binary.LittleEndian.Uint32(tm)
@@ -95,9 +96,12 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 		}
 
 		if buf.Len() != 0 {
+			if buf.Len() < int(sdr.RecordLength) {
+				return fmt.Errorf("Длина записи SDR %d больше оставшихся данных: %d", sdr.RecordLength, buf.Len())
+			}
 			rds := RecordDataSet{}
 			rdsBytes := make([]byte, sdr.RecordLength)
-			if _, err = buf.Read(rdsBytes); err != nil {
+			if _, err = io.ReadFull(buf, rdsBytes); err != nil {
 				return err
 			}
 
@@ -112,6 +116,16 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 	return err
 }
 
+//complete проверяет, что за заголовком последней записи следуют заявленные в нем данные
+func (s *ServiceDataSet) complete() error {
+	if n := len(*s); n > 0 {
+		if last := (*s)[n-1]; last.RecordLength > 0 && len(last.RecordDataSet) == 0 {
+			return fmt.Errorf("Отсутствуют данные записи SDR длиной %d", last.RecordLength)
+		}
+	}
+	return nil
+}
+
 //Encode кодирование структуры в байты
 func (s *ServiceDataSet) Encode() ([]byte, error) {
 	var (
-- 
2.43.0


From d31bcbd86edc163a30bb529fc070ebaf0f5f9724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 09/33] fix: compute record, subrecord and header lengths when
 encoding instead of trusting stale ones

---
 libs/egts/egts_pkg.go             |  8 +++-----
 libs/egts/record_data.go          | 11 +++++------
 libs/egts/service_data_records.go |  4 +---
 3 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 54d8bdf..e29b51e 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -182,11 +182,9 @@ func (p *Package) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать флаги: %v", err)
 	}
 
-	if p.HeaderLength == 0 {
-		p.HeaderLength = DEFAULT_HEADER_LEN
-		if p.Route == "1" {
-			p.HeaderLength += 5
-		}
+	p.HeaderLength = DEFAULT_HEADER_LEN
+	if p.Route == "1" {
+		p.HeaderLength += 5
 	}
 
 	if err = buf.WriteByte(p.HeaderLength); err != nil {
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 39598f0..0af5aa3 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -138,15 +138,14 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 			return result, err
 		}
 
-		if rd.SubrecordLength == 0 {
-			rd.SubrecordLength = rd.SubrecordData.Length()
-		}
-		if err := binary.Write(buf, binary.LittleEndian, rd.SubrecordLength); err != nil {
+		srd, err := rd.SubrecordData.Encode()
+		if err != nil {
 			return result, err
 		}
 
-		srd, err := rd.SubrecordData.Encode()
-		if err != nil {
+		// длина, сохраненная при разборе, может не соответствовать закодированным данным
+		rd.SubrecordLength = uint16(len(srd))
+		if err := binary.Write(buf, binary.LittleEndian, rd.SubrecordLength); err != nil {
 			return result, err
 		}
 		buf.Write(srd)
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 7e8656d..fed7886 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -141,9 +141,7 @@ func (s *ServiceDataSet) Encode() ([]byte, error) {
 			return result, err
 		}
 
-		if sdr.RecordLength == 0 {
-			sdr.RecordLength = uint16(len(rd))
-		}
+		sdr.RecordLength = uint16(len(rd))
 		if err = binary.Write(buf, binary.LittleEndian, sdr.RecordLength); err != nil {
 			return result, fmt.Errorf("Не удалось записать длину записи SDR: %v", err)
 		}
-- 
2.43.0


From 7607c0296a38b2bdfa6a5c13675c699d305d8089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 10/33] fix: send the result code of an identification as
 PT_APPDATA so that it can be decoded

---
 cli/receiver/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index e21f310..c1947b3 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -409,7 +409,7 @@ func createSrResultCode(pid uint16, resultCode uint8) ([]byte, error) {
 		HeaderEncoding:    0,
 		FrameDataLength:   sfd.Length(),
 		PacketIdentifier:  pid + 1,
-		PacketType:        egts.PtResponsePacket,
+		PacketType:        egts.PtAppdataPacket,
 		ServicesFrameData: &sfd,
 	}
 
-- 
2.43.0


From 153ccec72a1d2c5f49fa7ef695bfbf08537b1671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 11/33] fix: leave the accept loop when the listener is closed
 instead of spinning

---
 cli/receiver/server/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index c1947b3..214d937 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
 	"net"
 	"time"
@@ -36,7 +37,10 @@ func (s *Server) Run() {
 	log.Infof("Запущен сервер %s...", s.addr)
 	for {
 		conn, err := s.l.Accept()
-		if err != nil {
+		if errors.Is(err, net.ErrClosed) {
+			// сервер остановлен
+			return
+		} else if err != nil {
 			log.WithField("err", err).Errorf("Ошибка соединения")
 		} else {
 			go s.handleConn(conn)
-- 
2.43.0


From e74efe631e7ef5b8bf6b7e25a73da8606713fcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 12/33] fix: compute the packet length without overflow and
 close on an impossible header length

---
 cli/receiver/server/server.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 214d937..e739d14 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -97,8 +97,12 @@ func (s *Server) handleConn(conn net.Conn) {
 			}
 
 			// вычисляем длину пакета, равную длине заголовка (HL) + длина тела (FDL) + CRC пакета 2 байта если есть FDL из приказа минтранса №285
-			bodyLen := binary.LittleEndian.Uint16(headerBuf[5:7])
-			pkgLen := uint16(headerBuf[3])
+			bodyLen := int(binary.LittleEndian.Uint16(headerBuf[5:7]))
+			pkgLen := int(headerBuf[3])
+			if pkgLen < headerLen {
+				log.WithField("ip", conn.RemoteAddr()).Warn("Некорректная длина заголовка пакета. Закрыто соединение")
+				return
+			}
 			if bodyLen > 0 {
 				pkgLen += bodyLen + 2
 			}
-- 
2.43.0


From 9dfcc0cc1052db2aa613f93925b6424d328e4469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 13/33] fix: offer a record to every storage even when an
 earlier one fails

---
 cli/receiver/storage/store.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cli/receiver/storage/store.go b/cli/receiver/storage/store.go
index a0b0127..6c4ae0e 100644
--- a/cli/receiver/storage/store.go
+++ b/cli/receiver/storage/store.go
@@ -46,12 +46,13 @@ func (r *Repository) AddStore(s Saver) {
 
 //Save сохраняет данные во все установленные хранилища
 func (r *Repository) Save(m interface{ ToBytes() ([]byte, error) }) error {
+	var firstErr error
 	for _, store := range r.storages {
-		if err := store.Save(m); err != nil {
-			return err
+		if err := store.Save(m); err != nil && firstErr == nil {
+			firstErr = err
 		}
 	}
-	return nil
+	return firstErr
 }
 
 //LoadStorages загружает хранилища из структуры конфига
-- 
2.43.0


From acfa56728577baaa9ed0f564e0a829afb33c4393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 14/33] fix: report a failed redis publish instead of panicking

---
 cli/receiver/storage/store/redis/connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index a7f2ae0..1437420 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -73,7 +73,7 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	}
 
 	if err := c.conn.Publish(context.Background(), c.queue, innerPkg).Err(); err != nil {
-		panic(err)
+		return fmt.Errorf("Не удалось отправить сообщение в очередь: %v", err)
 	}
 
 	return nil
-- 
2.43.0


From 17c5172c574f369a2bbc417fb25e06ec5fae0eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 15/33] fix: let the redis db number default to 0 as intended

---
 cli/receiver/storage/store/redis/connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index 1437420..6d349f0 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -39,7 +39,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("не задан адрес redis сервера")
 	}
 
-	configDb, _ := c.config["db"]
+	configDb, ok := c.config["db"]
 	if !ok {
 		configDb = "0"
 	}
-- 
2.43.0


From 892e3466216737f20d02faa49967747969505530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 16/33] fix: put the bytes of counters 110 and 111 in their
 places of the record number

---
 cli/receiver/server/server.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index e739d14..3b7bfc6 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -259,8 +259,10 @@ func (s *Server) handleConn(conn net.Conn) {
 						switch subRecData.CounterNumber {
 						case 110:
 							// Три младших байта номера передаваемой записи (идет вместе с каждой POS_DATA).
-							binary.BigEndian.PutUint32(packetIDBytes, subRecData.CounterValue)
-							exportPacket.PacketID = subRecData.CounterValue
+							highByte := packetIDBytes[3]
+							binary.LittleEndian.PutUint32(packetIDBytes, subRecData.CounterValue)
+							packetIDBytes[3] = highByte
+							exportPacket.PacketID = binary.LittleEndian.Uint32(packetIDBytes)
 						case 111:
 							// один старший байт номера передаваемой записи (идет вместе с каждой POS_DATA).
 							tmpBuf := make([]byte, 4)
-- 
2.43.0


From 45eecb33966d71184775e632d660c248dfbc81b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 17/33] fix: store southern latitudes and western longitudes as
 negative

---
 cli/receiver/server/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 3b7bfc6..c014556 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -208,6 +208,13 @@ func (s *Server) handleConn(conn net.Conn) {
 							Speed:        subRecData.Speed,
 							NavigationDt: subRecData.NavigationTime.Format(time.RFC3339),
 						}
+						// южная широта и западная долгота отрицательные
+						if subRecData.LAHS == "1" {
+							locData.Latitude = -locData.Latitude
+						}
+						if subRecData.LOHS == "1" {
+							locData.Longitude = -locData.Longitude
+						}
 
 						exportPacket.LocStates = append(exportPacket.LocStates, locData)
 						exportPacket.LocStatesCount++
-- 
2.43.0


From b56bf0196b87f19ae4c65cc4aa0dd32144fb8202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 18/33] fix: close a connection that is idle for the TTL, and
 at once when the client ends it

---
 cli/receiver/server/server.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index c014556..c95ca12 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"io"
 	"net"
+	"os"
 	"time"
 
 	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
@@ -56,6 +57,21 @@ func (s *Server) Stop() error {
 	return nil
 }
 
+// idleReader ограничивает время ожидания данных от клиента
+type idleReader struct {
+	conn net.Conn
+	ttl  time.Duration
+}
+
+func (r idleReader) Read(p []byte) (int, error) {
+	if r.ttl > 0 {
+		if err := r.conn.SetReadDeadline(time.Now().Add(r.ttl)); err != nil {
+			return 0, err
+		}
+	}
+	return r.conn.Read(p)
+}
+
 func (s *Server) handleConn(conn net.Conn) {
 	defer conn.Close()
 
@@ -72,6 +88,7 @@ func (s *Server) handleConn(conn net.Conn) {
 		return
 	}
 	log.WithField("ip", conn.RemoteAddr()).Info("Установлено соединение")
+	reader := idleReader{conn: conn, ttl: s.ttl}
 
 	for {
 	Received:
@@ -80,16 +97,12 @@ func (s *Server) handleConn(conn net.Conn) {
 		srResultCodePkg = nil
 		recvPacket = nil
 
-		connTimer := time.NewTimer(s.ttl)
-
 		// считываем заголовок пакета
 		headerBuf := make([]byte, headerLen)
-		_, err := io.ReadFull(conn, headerBuf)
+		_, err := io.ReadFull(reader, headerBuf)
 
 		switch err {
 		case nil:
-			connTimer.Reset(s.ttl)
-
 			// если пакет не егтс формата закрываем соединение
 			if headerBuf[0] != 0x01 {
 				log.WithField("ip", conn.RemoteAddr()).Warn("Пакет не соответствует формату ЕГТС. Закрыто соединение")
@@ -108,7 +121,7 @@ func (s *Server) handleConn(conn net.Conn) {
 			}
 			// получаем концовку ЕГТС пакета
 			buf := make([]byte, pkgLen-headerLen)
-			if _, err := io.ReadFull(conn, buf); err != nil {
+			if _, err := io.ReadFull(reader, buf); err != nil {
 				log.WithField("err", err).Error("Ошибка при получении тела пакета")
 				return
 			}
@@ -116,10 +129,13 @@ func (s *Server) handleConn(conn net.Conn) {
 			// формируем полный пакет
 			recvPacket = append(headerBuf, buf...)
 		case io.EOF:
-			<-connTimer.C
-			log.WithField("ip", conn.RemoteAddr()).Warnf("Соединение закрыто по таймауту")
+			log.WithField("ip", conn.RemoteAddr()).Info("Соединение закрыто клиентом")
 			return
 		default:
+			if errors.Is(err, os.ErrDeadlineExceeded) {
+				log.WithField("ip", conn.RemoteAddr()).Warnf("Соединение закрыто по таймауту")
+				return
+			}
 			log.WithField("err", err).Error("Ошибка при получении")
 			return
 		}
-- 
2.43.0


From 442a91214308f53e87452d0233e0309dbea2d53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 19/33] fix: do not acknowledge telemetry that a storage has
 refused as processed

---
 cli/receiver/server/server.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index c95ca12..cb38da9 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -14,8 +14,9 @@ import (
 )
 
 const (
-	egtsPcOk  = 0
-	headerLen = 10
+	egtsPcOk      = 0
+	egtsPcIoError = 155
+	headerLen     = 10
 )
 
 type Server struct {
@@ -326,6 +327,11 @@ func (s *Server) handleConn(conn net.Conn) {
 			if isPkgSave {
 				if err := s.store.Save(&exportPacket); err != nil {
 					log.WithField("err", err).Error("Ошибка сохранения телеметрии")
+					// данные не приняты хранилищем, клиент не должен считать их доставленными
+					resultCode = egtsPcIoError
+					for _, resp := range srResponsesRecord {
+						resp.SubrecordData.(*egts.SrResponse).RecordStatus = egtsPcIoError
+					}
 				}
 			}
 
-- 
2.43.0


From 4a230f2dac213c47957a28cf9f5c01eaf5191b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 20/33] fix: store and answer telemetry that shares a packet
 with record confirmations

---
 cli/receiver/server/server.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index cb38da9..b653318 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -82,6 +82,8 @@ func (s *Server) handleConn(conn net.Conn) {
 		serviceType       uint8
 		srResponsesRecord egts.RecordDataSet
 		recvPacket        []byte
+		subRecCount       int
+		confirmCount      int
 	)
 
 	if s.store == nil {
@@ -172,6 +174,7 @@ func (s *Server) handleConn(conn net.Conn) {
 			}
 
 			isPkgSave = false
+			subRecCount, confirmCount = 0, 0
 
 			for _, rec := range *pkg.ServicesFrameData.(*egts.ServiceDataSet) {
 				packetIDBytes := make([]byte, 4)
@@ -190,6 +193,7 @@ func (s *Server) handleConn(conn net.Conn) {
 				exportPacket.ClientID = rec.ObjectIdentifier
 
 				for _, subRec := range rec.RecordDataSet {
+					subRecCount++
 					switch subRecData := subRec.SubrecordData.(type) {
 					case *egts.SrAuthInfo:
 						log.Debug("Разбор подзаписи EGTS_SR_AUTH_INFO")
@@ -198,7 +202,7 @@ func (s *Server) handleConn(conn net.Conn) {
 						}
 					case *egts.SrResponse:
 						log.Debugf("Разбор подзаписи EGTS_SR_RESPONSE")
-						goto Received
+						confirmCount++
 					case *egts.SrTermIdentity:
 						log.Debug("Разбор подзаписи EGTS_SR_TERM_IDENTITY")
 						// fmt.Printf("Разбор подзаписи EGTS_SR_TERM_IDENTITY: %+v\n\n", subRecData)
@@ -324,6 +328,11 @@ func (s *Server) handleConn(conn net.Conn) {
 
 			}
 
+			// пакет только с подтверждениями не требует ответа
+			if confirmCount > 0 && confirmCount == subRecCount {
+				goto Received
+			}
+
 			if isPkgSave {
 				if err := s.store.Save(&exportPacket); err != nil {
 					log.WithField("err", err).Error("Ошибка сохранения телеметрии")
-- 
2.43.0


From e072c5cad9087e2c81d558be410238a072dc2de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 21/33] fix: take the object identifier from the record that
 carries the position

---
 cli/receiver/server/server.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index b653318..e9e8072 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -190,8 +190,6 @@ func (s *Server) handleConn(conn net.Conn) {
 				serviceType = rec.SourceServiceType
 				log.Info("Тип сервиса ", serviceType)
 
-				exportPacket.ClientID = rec.ObjectIdentifier
-
 				for _, subRec := range rec.RecordDataSet {
 					subRecCount++
 					switch subRecData := subRec.SubrecordData.(type) {
@@ -217,6 +215,7 @@ func (s *Server) handleConn(conn net.Conn) {
 							log.Debugf("Разбор подзаписи EGTS_SR_POS_DATA")
 						}
 
+						exportPacket.ClientID = rec.ObjectIdentifier
 						exportPacket.NavigationTimestamp = subRecData.NavigationTime.Unix()
 						// exportPacket.Latitude = subRecData.Latitude
 						// exportPacket.Longitude = subRecData.Longitude
-- 
2.43.0


From 34b31488570bd913648ae73c11d48a95b08a0219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 22/33] fix: send the time given to packet-gen instead of a
 constant

---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index ed73be7..76bfc5d 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -113,7 +113,7 @@ func main() {
 					egts.RecordData{
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
-							NavigationTime:      time.Date(2021, time.February, 20, 0, 30, 40, 0, time.UTC),
+							NavigationTime:      timestamp,
 							Latitude:            lat,
 							Longitude:           lon,
 							ALTE:                "1",
-- 
2.43.0


From bb0d6df247afa36caebaa737c705ac585d8106ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 23/33] fix: make packet-gen wait 5 seconds for the answer by
 default as documented

---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 76bfc5d..a7a8635 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -58,7 +58,7 @@ func main() {
 	flag.IntVar(&liqLvl, "liquid", 0, "Liquid level for first sensor")
 	flag.Float64Var(&lat, "lat", 0, "Latitude")
 	flag.Float64Var(&lon, "lon", 0, "Longitude")
-	flag.IntVar(&ackTimeout, "timeout", 0, "Ack waiting time in seconds, Default: 5")
+	flag.IntVar(&ackTimeout, "timeout", 5, "Ack waiting time in seconds, Default: 5")
 	flag.StringVar(&server, "server", "localhost:5555", "Egts server address in format <ip>:<port>")
 
 	flag.Parse()
-- 
2.43.0


From f2d6e29587278b527928f48627dc3ef95a61ec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 24/33] fix: let packet-gen succeed exactly when its packet and
 record are acknowledged

---
 cli/packet-gen/main.go | 52 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index a7a8635..d0c31a5 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -1,9 +1,11 @@
 package main
 
 import (
+	"encoding/binary"
 	"flag"
 	"fmt"
 	"github.com/ElectroUnion/egts-gate/libs/egts"
+	"io"
 	"net"
 	"os"
 	"time"
@@ -41,6 +43,8 @@ Example
 Created by Igor Kuznetsov
 */
 
+const recordNumber = 1
+
 func main() {
 
 	pid := 0
@@ -97,7 +101,7 @@ func main() {
 		PacketType:       1,
 		ServicesFrameData: &egts.ServiceDataSet{
 			egts.ServiceDataRecord{
-				RecordNumber:             1,
+				RecordNumber:             recordNumber,
 				SourceServiceOnDevice:    "0",
 				RecipientServiceOnDevice: "0",
 				Group:                    "0",
@@ -174,17 +178,15 @@ func main() {
 		os.Exit(1)
 	}
 
-	ackBuf := make([]byte, 1024)
-
 	_ = conn.SetReadDeadline(time.Now().Add(time.Duration(ackTimeout) * time.Second))
-	ackLen, err := conn.Read(ackBuf)
+	ackBuf, err := readPacket(conn)
 	if err != nil {
 		fmt.Println("Read from server failed:", err)
 		os.Exit(1)
 	}
 
 	ackPacket := egts.Package{}
-	_, err = ackPacket.Decode(ackBuf[:ackLen])
+	_, err = ackPacket.Decode(ackBuf)
 	if err != nil {
 		fmt.Println("Parse ack packet failed:", err)
 		os.Exit(1)
@@ -207,7 +209,14 @@ func main() {
 		os.Exit(1)
 	}
 
-	for _, rec := range *ack.SDR.(*egts.ServiceDataSet) {
+	confirmations, ok := ack.SDR.(*egts.ServiceDataSet)
+	if !ok {
+		fmt.Println("Ack doesn't confirm the record")
+		os.Exit(1)
+	}
+
+	isConfirmed := false
+	for _, rec := range *confirmations {
 		for _, subRec := range rec.RecordDataSet {
 			if subRec.SubrecordType == egts.SrRecordResponseType {
 				if response, ok := subRec.SubrecordData.(*egts.SrResponse); ok {
@@ -215,11 +224,40 @@ func main() {
 						fmt.Printf("Incorrect record status: %d (actual) != 0 (expected)", response.RecordStatus)
 						os.Exit(1)
 					}
+					if response.ConfirmedRecordNumber == recordNumber {
+						isConfirmed = true
+					}
 				}
 			}
 		}
 	}
 
+	if !isConfirmed {
+		fmt.Println("Ack doesn't confirm the record")
+		os.Exit(1)
+	}
+
 	fmt.Println("Packet sent and processed correct")
-	os.Exit(1)
+}
+
+// readPacket reads one whole EGTS packet, which may arrive in several parts
+func readPacket(r io.Reader) ([]byte, error) {
+	header := make([]byte, 10)
+	if _, err := io.ReadFull(r, header); err != nil {
+		return nil, err
+	}
+
+	size := int(header[3])
+	if bodyLen := int(binary.LittleEndian.Uint16(header[5:7])); bodyLen > 0 {
+		size += bodyLen + 2
+	}
+	if header[0] != 1 || size < len(header) {
+		return nil, fmt.Errorf("received data is not egts packet")
+	}
+
+	tail := make([]byte, size-len(header))
+	if _, err := io.ReadFull(r, tail); err != nil {
+		return nil, err
+	}
+	return append(header, tail...), nil
 }
-- 
2.43.0


From 7efca8f9d3dfcad4002734732c1865319c38a3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 25/33] fix: send hemispheres from packet-gen and refuse values
 that do not fit

---
 cli/packet-gen/main.go | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index d0c31a5..ff3617d 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"github.com/ElectroUnion/egts-gate/libs/egts"
 	"io"
+	"math"
 	"net"
 	"os"
 	"time"
@@ -45,6 +46,9 @@ Created by Igor Kuznetsov
 
 const recordNumber = 1
 
+// EGTS navigation time is counted from this date
+var startDate = time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
+
 func main() {
 
 	pid := 0
@@ -87,6 +91,30 @@ func main() {
 		os.Exit(1)
 	}
 
+	if pid < 0 || pid > math.MaxUint16 || oid < 0 || oid > math.MaxUint32 || liqLvl < 0 || liqLvl > math.MaxUint32 {
+		fmt.Println("Packet identifier, client identifier or liquid level is out of range")
+		os.Exit(1)
+	}
+
+	if !(math.Abs(lat) <= 90) || !(math.Abs(lon) <= 180) {
+		fmt.Println("Coordinates are out of range")
+		os.Exit(1)
+	}
+
+	if sec := timestamp.Unix() - startDate.Unix(); sec < 0 || sec > math.MaxUint32 {
+		fmt.Println("Timestamp is out of range")
+		os.Exit(1)
+	}
+
+	// coordinates are sent without sign, the hemispheres are sent as flags
+	lahs, lohs := "0", "0"
+	if lat < 0 {
+		lahs = "1"
+	}
+	if lon < 0 {
+		lohs = "1"
+	}
+
 	egtsSendPacket := egts.Package{
 		ProtocolVersion:  1,
 		SecurityKeyID:    0,
@@ -118,11 +146,11 @@ func main() {
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
 							NavigationTime:      timestamp,
-							Latitude:            lat,
-							Longitude:           lon,
+							Latitude:            math.Abs(lat),
+							Longitude:           math.Abs(lon),
 							ALTE:                "1",
-							LOHS:                "0",
-							LAHS:                "0",
+							LOHS:                lohs,
+							LAHS:                lahs,
 							MV:                  "1",
 							BB:                  "1",
 							CS:                  "0",
-- 
2.43.0


From 2e8cd9e8cd2f3346ccf612df775eef07f5b9e5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:09 +0000
Subject: [PATCH 26/33] fix: use keys that take effect in the sample
 configurations

---
 README.md             | 2 +-
 configs/receiver.yaml | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index 41fe106..6ebb9d1 100644
--- a/README.md
+++ b/README.md
@@ -77,7 +77,7 @@ services:
 ```yaml
 host: "127.0.0.1"
 port: "6000"
-con_live_sec: 10
+conn_ttl: 10
 log_level: "DEBUG"
 
 storage:
diff --git a/configs/receiver.yaml b/configs/receiver.yaml
index 943dc2a..6b5bfc4 100644
--- a/configs/receiver.yaml
+++ b/configs/receiver.yaml
@@ -1,6 +1,6 @@
 host: "127.0.0.1"
 port: "6000"
-con_live_sec: 10
+conn_ttl: 10
 log_level: "DEBUG"
 
 storage:
@@ -24,7 +24,6 @@ storage:
 #    password: ""
 #    db: "0"
 #  nats:
-#    plugin: "nats.so"
 #    servers: "nats://localhost:1222, nats://localhost:1223, nats://localhost:1224"
 #    topic: "receiver"
 #  tarantool_queue:
-- 
2.43.0


From 187e6c70ea284af08a3652247dd9ba97e4d2bdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:25 +0000
Subject: [PATCH 27/33] fix: pass RabbitMQ credentials with reserved characters
 intact

---
 cli/receiver/storage/store/rabbitmq/connector.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index 68da009..7eff5d1 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -16,6 +16,7 @@ exchange_type = "topic"
 import (
 	"fmt"
 	"github.com/streadway/amqp"
+	"net/url"
 )
 
 type Connector struct {
@@ -33,8 +34,13 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 
 	c.config = cfg
-	conStr := fmt.Sprintf("amqp://%s:%s@%s:%s/", c.config["user"], c.config["password"], c.config["host"], c.config["port"])
-	if c.connection, err = amqp.Dial(conStr); err != nil {
+	conURL := url.URL{
+		Scheme: "amqp",
+		User:   url.UserPassword(c.config["user"], c.config["password"]),
+		Host:   c.config["host"] + ":" + c.config["port"],
+		Path:   "/",
+	}
+	if c.connection, err = amqp.Dial(conURL.String()); err != nil {
 		return fmt.Errorf("Ошибка установки соединеия RabbitMQ: %v", err)
 	}
 
-- 
2.43.0


From d8553cea3ae22c0d0f8474410d8800b4cd687512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:27 +0000
Subject: [PATCH 28/33] fix: wait until RabbitMQ has confirmed a record before
 reporting it saved

---
 cli/receiver/storage/store/rabbitmq/connector.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index 7eff5d1..6e4dda3 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -17,11 +17,14 @@ import (
 	"fmt"
 	"github.com/streadway/amqp"
 	"net/url"
+	"sync"
 )
 
 type Connector struct {
 	connection *amqp.Connection
 	channel    *amqp.Channel
+	confirms   chan amqp.Confirmation
+	mu         sync.Mutex
 	config     map[string]string
 }
 
@@ -48,6 +51,11 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("Ошибка открытия канала RabbitMQ: %v", err)
 	}
 
+	if err = c.channel.Confirm(false); err != nil {
+		return fmt.Errorf("Ошибка включения подтверждений RabbitMQ: %v", err)
+	}
+	c.confirms = c.channel.NotifyPublish(make(chan amqp.Confirmation, 1))
+
 	return err
 }
 
@@ -61,6 +69,10 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 		return fmt.Errorf("Ошибка сериализации  пакета: %v", err)
 	}
 
+	// брокер подтверждает пакеты по порядку: следующий отправляется после подтверждения предыдущего
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
 	if err = c.channel.Publish(
 		c.config["exchange"],
 		c.config["key"],
@@ -72,6 +84,9 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 		}); err != nil {
 		return fmt.Errorf("Ошибка отправки сырого пакета в RabbitMQ: %v", err)
 	}
+	if confirm, ok := <-c.confirms; !ok || !confirm.Ack {
+		return fmt.Errorf("RabbitMQ не подтвердил получение пакета")
+	}
 	return nil
 }
 
-- 
2.43.0


From f9a75ff93becebd307422bbb2e2c1ea009d4e9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 29/33] fix: report a record as sent to NATS only when the
 server has received it

---
 cli/receiver/storage/store/nats/connector.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cli/receiver/storage/store/nats/connector.go b/cli/receiver/storage/store/nats/connector.go
index 54a6dab..3b55015 100644
--- a/cli/receiver/storage/store/nats/connector.go
+++ b/cli/receiver/storage/store/nats/connector.go
@@ -13,8 +13,12 @@ topic = "receiver"
 import (
 	"fmt"
 	natsLib "github.com/nats-io/nats.go"
+	"time"
 )
 
+// сколько ждать от сервера подтверждения того, что он получил отправленное
+const flushTimeout = 5 * time.Second
+
 type Connector struct {
 	connection *natsLib.Conn
 	config     map[string]string
@@ -55,9 +59,17 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 		return fmt.Errorf("Ошибка сериализации  пакета: %v", err)
 	}
 
+	lastErr := c.connection.LastError()
 	if err = c.connection.Publish(c.config["topic"], innerPkg); err != nil {
 		return fmt.Errorf("Не удалось отправить сообщение в топик: %v", err)
 	}
+	// Publish только помещает сообщение в буфер: убеждаемся, что сервер его получил и не отклонил
+	if err = c.connection.FlushTimeout(flushTimeout); err != nil {
+		return fmt.Errorf("Не удалось отправить сообщение в топик: %v", err)
+	}
+	if err = c.connection.LastError(); err != nil && err != lastErr {
+		return fmt.Errorf("Не удалось отправить сообщение в топик: %v", err)
+	}
 	return nil
 }
 
-- 
2.43.0


From 4007865c676bbd0dbadf8bc41d4a20dabb33d865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:31 +0000
Subject: [PATCH 30/33] fix: quote PostgreSQL connection parameters

---
 cli/receiver/storage/store/postgresql/connector.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/storage/store/postgresql/connector.go b/cli/receiver/storage/store/postgresql/connector.go
index 6db4bad..8084f80 100644
--- a/cli/receiver/storage/store/postgresql/connector.go
+++ b/cli/receiver/storage/store/postgresql/connector.go
@@ -19,6 +19,7 @@ import (
 	"database/sql"
 	"fmt"
 	_ "github.com/lib/pq"
+	"strings"
 )
 
 type Connector struct {
@@ -34,8 +35,17 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("Не корректная ссылка на конфигурацию")
 	}
 	c.config = cfg
-	connStr := fmt.Sprintf("dbname=%s host=%s port=%s user=%s password=%s sslmode=%s",
-		c.config["database"], c.config["host"], c.config["port"], c.config["user"], c.config["password"], c.config["sslmode"])
+	connStr := ""
+	for _, p := range []struct{ name, key string }{
+		{"dbname", "database"}, {"host", "host"}, {"port", "port"},
+		{"user", "user"}, {"password", "password"}, {"sslmode", "sslmode"},
+	} {
+		// значение в кавычках, чтобы пустое или содержащее пробелы не исказило соседние параметры
+		value := strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(c.config[p.key])
+		if value != "" {
+			connStr += fmt.Sprintf("%s='%s' ", p.name, value)
+		}
+	}
 	if c.connection, err = sql.Open("postgres", connStr); err != nil {
 		return fmt.Errorf("Ошибка подключения к postgresql: %v", err)
 	}
-- 
2.43.0


From cb0e2d9d0178cd19806ad59a9fa4a080bd9997c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:17 +0000
Subject: [PATCH 31/33] fix: do not take the answer of a later NATS connection
 for the receipt of a record

---
 cli/receiver/storage/store/nats/connector.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/nats/connector.go b/cli/receiver/storage/store/nats/connector.go
index 3b55015..c25a10c 100644
--- a/cli/receiver/storage/store/nats/connector.go
+++ b/cli/receiver/storage/store/nats/connector.go
@@ -59,7 +59,7 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 		return fmt.Errorf("Ошибка сериализации  пакета: %v", err)
 	}
 
-	lastErr := c.connection.LastError()
+	lastErr, reconnects := c.connection.LastError(), c.connection.Stats().Reconnects
 	if err = c.connection.Publish(c.config["topic"], innerPkg); err != nil {
 		return fmt.Errorf("Не удалось отправить сообщение в топик: %v", err)
 	}
@@ -70,6 +70,10 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	if err = c.connection.LastError(); err != nil && err != lastErr {
 		return fmt.Errorf("Не удалось отправить сообщение в топик: %v", err)
 	}
+	// при разрыве соединения последняя ошибка сбрасывается
+	if !c.connection.IsConnected() || c.connection.Stats().Reconnects != reconnects {
+		return fmt.Errorf("Не удалось отправить сообщение в топик: соединение прервалось")
+	}
 	return nil
 }
 
-- 
2.43.0


From 9fb1840080efcf0eeb0f499195d63268f2e1a1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:47:47 +0000
Subject: [PATCH 32/33] fix: fill up short texts of TERM_IDENTITY and refuse
 ones that are too long

---
 libs/egts/egts_sr_term_identity.go | 42 +++++++++++++++---------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index 7a659dc..c8c0d87 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -140,36 +140,26 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	if e.IMEIE == "1" {
-		wbb := 0
-		if wbb, err = buf.Write([]byte(e.IMEI)); err != nil {
-			return result, fmt.Errorf("Не удалось записать IMEI при авторизации")
-		}
-		if wbb < 15 {
-			tmp := make([]byte, 15-wbb)
-			buf.Write(tmp)
+		if err = writeFixed(buf, []byte(e.IMEI), 15); err != nil {
+			return result, fmt.Errorf("Не удалось записать IMEI при авторизации: %v", err)
 		}
 	}
 
 	if e.IMSIE == "1" {
-		wbb := 0
-		if wbb, err = buf.Write([]byte(e.IMSI)); err != nil {
-			return result, fmt.Errorf("Не удалось записать IMSI при авторизации")
-		}
-		if wbb < 16 {
-			tmp := make([]byte, 16-wbb)
-			buf.Write(tmp)
+		if err = writeFixed(buf, []byte(e.IMSI), 16); err != nil {
+			return result, fmt.Errorf("Не удалось записать IMSI при авторизации: %v", err)
 		}
 	}
 
 	if e.LNGCE == "1" {
-		if _, err = buf.Write([]byte(e.LanguageCode)); err != nil {
-			return result, fmt.Errorf("Не удалось записать IMSI при авторизации")
+		if err = writeFixed(buf, []byte(e.LanguageCode), 3); err != nil {
+			return result, fmt.Errorf("Не удалось записать код языка при авторизации: %v", err)
 		}
 	}
 
 	if e.NIDE == "1" {
-		if _, err = buf.Write(e.NetworkIdentifier); err != nil {
-			return result, fmt.Errorf("Не удалось записать код идентификатор сети оператора при авторизации")
+		if err = writeFixed(buf, e.NetworkIdentifier, 3); err != nil {
+			return result, fmt.Errorf("Не удалось записать код идентификатор сети оператора при авторизации: %v", err)
 		}
 	}
 
@@ -180,8 +170,8 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	if e.MNE == "1" {
-		if _, err = buf.Write([]byte(e.MobileNumber)); err != nil {
-			return result, fmt.Errorf("Не удалось записать телефонный номер мобильного абонента")
+		if err = writeFixed(buf, []byte(e.MobileNumber), 15); err != nil {
+			return result, fmt.Errorf("Не удалось записать телефонный номер мобильного абонента: %v", err)
 		}
 	}
 
@@ -200,4 +190,14 @@ func (e *SrTermIdentity) Length() uint16 {
 	}
 
 	return result
-}
\ No newline at end of file
+}
+
+//writeFixed записывает поле фиксированной длины: короткое значение дополняется нулями, длинное не кодируется
+func writeFixed(buf *bytes.Buffer, value []byte, size int) error {
+	if len(value) > size {
+		return fmt.Errorf("значение длиной %d байт не помещается в поле из %d", len(value), size)
+	}
+	buf.Write(value)
+	buf.Write(make([]byte, size-len(value)))
+	return nil
+}
-- 
2.43.0


From b30b12aa2a018532b3a488998c8900d9ea767eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:47:47 +0000
Subject: [PATCH 33/33] fix: refuse to encode data that are longer than their
 length field

---
 libs/egts/egts_pkg.go             | 4 ++++
 libs/egts/record_data.go          | 4 ++++
 libs/egts/service_data_records.go | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index e29b51e..f063f52 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 )
 
@@ -202,6 +203,9 @@ func (p *Package) Encode() ([]byte, error) {
 			return result, err
 		}
 	}
+	if len(sfrd) > math.MaxUint16 {
+		return result, fmt.Errorf("Секция данных длиной %d байт не помещается в пакет", len(sfrd))
+	}
 	p.FrameDataLength = uint16(len(sfrd))
 	if err = binary.Write(buf, binary.LittleEndian, p.FrameDataLength); err != nil {
 		return result, fmt.Errorf("Не удалось записать длину секции данных: %v", err)
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 0af5aa3..e03a124 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 )
 
 //RecordData структура секции подзапси у записи ServiceDataRecord
@@ -143,6 +144,9 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 			return result, err
 		}
 
+		if len(srd) > math.MaxUint16 {
+			return result, fmt.Errorf("Данные длиной %d байт не помещаются в подзапись", len(srd))
+		}
 		// длина, сохраненная при разборе, может не соответствовать закодированным данным
 		rd.SubrecordLength = uint16(len(srd))
 		if err := binary.Write(buf, binary.LittleEndian, rd.SubrecordLength); err != nil {
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index fed7886..7b65233 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 )
 
@@ -141,6 +142,9 @@ func (s *ServiceDataSet) Encode() ([]byte, error) {
 			return result, err
 		}
 
+		if len(rd) > math.MaxUint16 {
+			return result, fmt.Errorf("Данные длиной %d байт не помещаются в запись SDR", len(rd))
+		}
 		sdr.RecordLength = uint16(len(rd))
 		if err = binary.Write(buf, binary.LittleEndian, sdr.RecordLength); err != nil {
 			return result, fmt.Errorf("Не удалось записать длину записи SDR: %v", err)
-- 
2.43.0

