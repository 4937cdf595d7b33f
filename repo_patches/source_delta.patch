From cae5cefe215fe94eba9b39bded8f40c79758616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:12 +0000
Subject: [PATCH 01/28] fix: NewDatum stores size2 in Size2

---
 data/datum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/datum.go b/data/datum.go
index 5db0810..fb0aa7c 100644
--- a/data/datum.go
+++ b/data/datum.go
@@ -22,7 +22,7 @@ func NewDatum(feature []float32,
 			Dim1:       dim1,
 			Dim2:       dim2,
 			Size1:      size1,
-			Size2:      size1,
+			Size2:      size2,
 			GroupLabel: groupLabel,
 		},
 		Value: &pb.DatumValue{
-- 
2.43.0


From bde1585d495fb533cf7582e39e8c792957fa0b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:12 +0000
Subject: [PATCH 02/28] fix: re-inserting an expired but not yet purged entry
 makes it live again

---
 data/newsync.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/data/newsync.go b/data/newsync.go
index 2040b5c..8a69ae7 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -25,9 +25,10 @@ func CloseEnough(a, b int64) bool {
 }
 
 func (dt *Data) InsertBDMap(datum *pb.Datum, config *pb.InsertConfig) error {
+	now := time.Now().Unix()
 	exprireAt := int64(0)
 	if config != nil && config.TTL != 0 {
-		exprireAt = time.Now().Unix() + int64(config.TTL)
+		exprireAt = now + int64(config.TTL)
 	}
 	datum.Clean()
 	entry := &DBMapEntry{
@@ -50,7 +51,9 @@ func (dt *Data) InsertBDMap(datum *pb.Datum, config *pb.InsertConfig) error {
 			if err != nil {
 				return err
 			}
-			if bytes.Compare(valueByte, oldValueByte) == 0 && CloseEnough(entry.ExprireAt, oldEntry.ExprireAt) {
+			// an entry that has already expired, but is not purged yet, must be replaced
+			isOldEntryLive := oldEntry.ExprireAt == 0 || oldEntry.ExprireAt > now
+			if isOldEntryLive && bytes.Compare(valueByte, oldValueByte) == 0 && CloseEnough(entry.ExprireAt, oldEntry.ExprireAt) {
 				isNewEntry = false
 			}
 		}
-- 
2.43.0


From a42bd1f50857ac999b8c286fa47e45591ce2abba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:50 +0000
Subject: [PATCH 03/28] fix: a search with limit 0 returns nothing instead of
 panicking

---
 data/aggregator.go | 3 +++
 data/search.go     | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index 5dd9f33..a5b04c2 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -78,6 +78,9 @@ func (a *Aggregator) BestScore(scoredDatum *pb.ScoredDatum) float64 {
 func (a *Aggregator) InsertToList(scoredDatum *pb.ScoredDatum) error {
 	itemAdded := false
 	limit := a.Config.Limit
+	if limit == 0 {
+		return nil
+	}
 	if uint32(len(a.List)) < limit {
 		a.List = append(a.List, scoredDatum)
 		itemAdded = true
diff --git a/data/search.go b/data/search.go
index 566e714..d9e2a43 100644
--- a/data/search.go
+++ b/data/search.go
@@ -62,6 +62,9 @@ type Collector struct {
 
 // Insert add a new scored datum to collector
 func (c *Collector) Insert(scoredDatum *pb.ScoredDatum) error {
+	if c.N == 0 {
+		return nil
+	}
 	itemAdded := false
 	if uint32(len(c.List)) < c.N {
 		c.List = append(c.List, scoredDatum)
@@ -316,7 +319,7 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 		var distances []float32
 		index := *(dt.Annoyer.DataIndex)
 		dt.Annoyer.AnnoyIndex.GetNnsByVector(datum.Key.Feature, len(index), int(config.Limit), &result, &distances)
-		if result != nil {
+		if result != nil && c.N > 0 {
 			counter := uint32(0)
 			for i := 0; i < len(result); i++ {
 				datumE := index[result[i]]
-- 
2.43.0


From f2ee6cc425b6b5a64db328aabc150821a424cb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:28 +0000
Subject: [PATCH 04/28] fix: merging results prefers the lower score when lower
 is better

---
 data/aggregator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index a5b04c2..c245453 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -46,7 +46,7 @@ func (a *Aggregator) IsNewScoredBetter(old, new float64) bool {
 			return true
 		}
 	} else {
-		if old < new {
+		if new < old {
 			return true
 		}
 	}
-- 
2.43.0


From 39fd7f401e562b33cafae532c172036adc185cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:28 +0000
Subject: [PATCH 05/28] fix: a datum offered again with a better score replaces
 its earlier result

---
 data/aggregator.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/data/aggregator.go b/data/aggregator.go
index c245453..0e961cd 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -1,6 +1,7 @@
 package data
 
 import (
+	"bytes"
 	"sort"
 	"time"
 
@@ -103,6 +104,17 @@ func (a *Aggregator) InsertToList(scoredDatum *pb.ScoredDatum) error {
 	return nil
 }
 
+// removeFromList drops the entry with the given key from the list if it is there
+func (a *Aggregator) removeFromList(keyByte []byte) {
+	for i, scoredDatum := range a.List {
+		oldKeyByte, err := GetKeyAsBytes(scoredDatum.GetDatum())
+		if err == nil && bytes.Equal(oldKeyByte, keyByte) {
+			a.List = append(a.List[:i], a.List[i+1:]...)
+			return
+		}
+	}
+}
+
 func (a *Aggregator) Insert(scoredDatum *pb.ScoredDatum) error {
 	scoredDatum.Score = a.BestScore(scoredDatum)
 	if a.Grouped {
@@ -127,6 +139,7 @@ func (a *Aggregator) Insert(scoredDatum *pb.ScoredDatum) error {
 		if previousScore, ok := a.DeDuplicationMap.Get(keyString); ok {
 			if a.IsNewScoredBetter(previousScore.(float64), scoredDatum.GetScore()) {
 				a.DeDuplicationMap.Set(keyString, scoredDatum.GetScore(), cache.NoExpiration)
+				a.removeFromList(keyByte)
 				return a.InsertToList(scoredDatum)
 			}
 		} else {
-- 
2.43.0


From 882e3b92a7c3cd4d9e40cd981c3a40ea00d03ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:22 +0000
Subject: [PATCH 06/28] fix: searching does not change the caller's search
 config

---
 data/search.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/data/search.go b/data/search.go
index d9e2a43..765a6be 100644
--- a/data/search.go
+++ b/data/search.go
@@ -165,7 +165,9 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 	duration := time.Duration(config.Timeout) * time.Millisecond
 	timeLimit := time.After(duration)
 	queryKey := GetSearchKey(datum, config)
-	config.Timeout = uint64(float64(config.Timeout) * 0.9) // Decrase timeout for downstream
+	var downstreamConfig pb.SearchConfig // the caller's config may be shared, it is not changed
+	copier.Copy(&downstreamConfig, config)
+	downstreamConfig.Timeout = uint64(float64(config.Timeout) * 0.9) // Decrase timeout for downstream
 	if dt.QueryCache == nil {
 		dt.InitData()
 	}
@@ -191,13 +193,13 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 	// internal
 	queryWaitGroup.Add(1)
 	go func() {
-		dt.StreamSearch(datum, scoredDatumStream, &queryWaitGroup, config)
+		dt.StreamSearch(datum, scoredDatumStream, &queryWaitGroup, &downstreamConfig)
 	}()
 	// external
 	dt.RunOnRandomSources(5, func(source DataSource) error {
 		queryWaitGroup.Add(1)
 		// log.Printf("Query Datasource: %v\n", source.GetID())
-		go source.StreamSearch(datum, scoredDatumStream, &queryWaitGroup, config)
+		go source.StreamSearch(datum, scoredDatumStream, &queryWaitGroup, &downstreamConfig)
 		return nil
 	})
 	go func() {
-- 
2.43.0


From c351594a004a3f30ca749994a19f4ebab9d78dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:08 +0000
Subject: [PATCH 07/28] fix: the native index is not given vectors shorter than
 its dimension

---
 data/data.go    |  1 +
 data/newsync.go |  7 +++++--
 data/search.go  |  2 +-
 data/util.go    | 10 ++++++++++
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/data/data.go b/data/data.go
index be2b8b9..c4410c5 100644
--- a/data/data.go
+++ b/data/data.go
@@ -29,6 +29,7 @@ type Annoyer struct {
 	DataIndex     *[]*pb.Datum
 	AnnoyIndex    annoyindex.AnnoyIndexAngular
 	BuildFileName string
+	Dimension     int
 }
 
 // Data represents a dataset with similar struture
diff --git a/data/newsync.go b/data/newsync.go
index 8a69ae7..af0395f 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -150,6 +150,7 @@ func (dt *Data) Process(force bool) error {
 		newDataIndex := make([]*pb.Datum, max(1000, int(dt.N)))
 		var newAnnoyIndex annoyindex.AnnoyIndexAngular
 		var newTempFileName string
+		newDimension := 0
 
 		err := dt.LoopDBMap(func(entry *DBMapEntry) error {
 			n++
@@ -172,7 +173,8 @@ func (dt *Data) Process(force bool) error {
 			if dt.Alive && i < len(newDataIndex) {
 				if newAnnoyIndex == nil {
 					// newAnnoyIndex = annoyindex.NewAnnoyIndexEuclidean(len(datum.Key.Feature))
-					newAnnoyIndex = annoyindex.NewAnnoyIndexAngular(len(entry.Datum.Key.Feature))
+					newDimension = len(entry.Datum.Key.Feature)
+					newAnnoyIndex = annoyindex.NewAnnoyIndexAngular(newDimension)
 					tmpfile, err := ioutil.TempFile("", "annoy")
 					if err == nil {
 						newTempFileName = tmpfile.Name()
@@ -180,7 +182,7 @@ func (dt *Data) Process(force bool) error {
 					}
 
 				}
-				newAnnoyIndex.AddItem(i, entry.Datum.Key.Feature)
+				newAnnoyIndex.AddItem(i, padFeature(entry.Datum.Key.Feature, newDimension))
 				newDataIndex[i] = entry.Datum
 			}
 			if !dt.Alive || (insertionCounter < limit && rand.Float64() < fraction) {
@@ -218,6 +220,7 @@ func (dt *Data) Process(force bool) error {
 			dt.Annoyer.BuildFileName = newTempFileName
 			dt.Annoyer.AnnoyIndex = newAnnoyIndex
 			dt.Annoyer.DataIndex = &newDataIndex
+			dt.Annoyer.Dimension = newDimension
 			dt.Annoyer.Unlock()
 			if len(oldFile) > 0 {
 				os.Remove(oldFile)
diff --git a/data/search.go b/data/search.go
index 765a6be..0610907 100644
--- a/data/search.go
+++ b/data/search.go
@@ -320,7 +320,7 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 		var result []int
 		var distances []float32
 		index := *(dt.Annoyer.DataIndex)
-		dt.Annoyer.AnnoyIndex.GetNnsByVector(datum.Key.Feature, len(index), int(config.Limit), &result, &distances)
+		dt.Annoyer.AnnoyIndex.GetNnsByVector(padFeature(datum.Key.Feature, dt.Annoyer.Dimension), len(index), int(config.Limit), &result, &distances)
 		if result != nil && c.N > 0 {
 			counter := uint32(0)
 			for i := 0; i < len(result); i++ {
diff --git a/data/util.go b/data/util.go
index 213a37e..680d5f3 100644
--- a/data/util.go
+++ b/data/util.go
@@ -25,6 +25,16 @@ func CalculateAverage(avg []float32, p []float32, n float32) []float32 {
 	return avg
 }
 
+// padFeature fills missing components with zeros, the native index reads dimension many without checking
+func padFeature(feature []float32, dimension int) []float32 {
+	if len(feature) >= dimension {
+		return feature
+	}
+	padded := make([]float32, dimension)
+	copy(padded, feature)
+	return padded
+}
+
 func QuickVectorDistance(arr1 []float32, arr2 []float32) float64 {
 	minLen := min(len(arr1), len(arr2))
 	var ret float64
-- 
2.43.0


From 58df47663079685a9fa8bb56c298866f66525b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:56 +0000
Subject: [PATCH 08/28] fix: entries without expiration are handed over to
 peers, expired ones are not

---
 data/newsync.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index af0395f..c1f857a 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -187,7 +187,9 @@ func (dt *Data) Process(force bool) error {
 			}
 			if !dt.Alive || (insertionCounter < limit && rand.Float64() < fraction) {
 				config := InsertConfigFromExpireAt(uint64(entry.ExprireAt))
-				if config.TTL > 10 {
+				// An entry without expiration is always worth sending, others only if there is enough time left.
+				// Time left can not be longer than the expiration time, unless the entry expired meanwhile.
+				if entry.ExprireAt == 0 || (config.TTL > 10 && config.TTL <= uint64(entry.ExprireAt)) {
 					datumStream <- &pb.InsertDatumWithConfig{
 						Datum:  entry.Datum,
 						Config: config,
-- 
2.43.0


From c9233d0dcf8b98dab47dbb8887a4f065c7c32465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:19 +0000
Subject: [PATCH 09/28] fix: eviction removes only the entry that was handed
 over, not a newer value of its key

---
 data/newsync.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index c1f857a..234e783 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -74,6 +74,21 @@ func (dt *Data) DeleteBDMap(datum *pb.Datum) error {
 	return nil
 }
 
+// DeleteEntryOf deletes the entry only if it still holds the given datum, it may have been replaced meanwhile
+func (dt *Data) DeleteEntryOf(datum *pb.Datum) error {
+	keyByte, err := GetKeyAsBytes(datum)
+	if err != nil {
+		return err
+	}
+	mapKey := string(keyByte)
+	if value, ok := dt.DBMap.Load(mapKey); ok {
+		if entry, ok2 := value.(*DBMapEntry); ok2 && entry.Datum == datum {
+			dt.DBMap.CompareAndDelete(mapKey, value)
+		}
+	}
+	return nil
+}
+
 func (dt *Data) LoopDBMap(entryFunction func(entry *DBMapEntry) error) error {
 	var lastError error
 	dt.DBMap.Range(func(key, value interface{}) bool {
@@ -127,7 +142,7 @@ func (dt *Data) Process(force bool) error {
 									}
 									if err == nil && (!dt.Alive || isEvictionOn(localInfo, config, deleted)) {
 										countMap[id]++
-										dt.DeleteBDMap(datum.Datum)
+										dt.DeleteEntryOf(datum.Datum)
 										deleted++
 									}
 								}
-- 
2.43.0


From 7f22c1492d2bec38950562b9bd008e4e1c859154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:48 +0000
Subject: [PATCH 10/28] fix: purging an expired entry does not remove one
 inserted meanwhile

---
 data/newsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index 234e783..4e93e89 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -94,7 +94,7 @@ func (dt *Data) LoopDBMap(entryFunction func(entry *DBMapEntry) error) error {
 	dt.DBMap.Range(func(key, value interface{}) bool {
 		if mapEntry, ok := value.(*DBMapEntry); ok {
 			if mapEntry.ExprireAt != 0 && mapEntry.ExprireAt <= time.Now().Unix() {
-				dt.DBMap.Delete(key)
+				dt.DBMap.CompareAndDelete(key, value) // it may have been replaced meanwhile
 				return true
 			}
 			err := entryFunction(mapEntry)
-- 
2.43.0


From 38e609bd6098cf2e8110f7bdcbf18b2cdd3dce21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:39 +0000
Subject: [PATCH 11/28] fix: a data stream returns only after its last entry
 has been sent

---
 node/nodeservice.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/node/nodeservice.go b/node/nodeservice.go
index 753ab84..f7cde60 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -84,21 +84,20 @@ func (n *Node) DataStream(getDataRequest *pb.GetDataRequest, stream pb.VeriServi
 		return err
 	}
 	datumStreamAll := make(chan *pb.Datum, 100)
+	sent := make(chan struct{})
 	go func() {
+		defer close(sent)
 		for datum := range datumStreamAll {
 			// log.Printf("Send label: %v\n", string(datum.Value.Label))
 			stream.Send(datum)
 		}
 	}()
 	err = dt.StreamAll(datumStreamAll)
+	close(datumStreamAll)
+	<-sent // stream can not be used by two goroutines or after return
 	if err != nil {
 		return err
 	}
-	close(datumStreamAll)
-	for datum := range datumStreamAll {
-		// log.Printf("Flush - Send label: %v\n", string(datum.Value.Label))
-		stream.Send(datum)
-	}
 	// log.Printf("DataStream finished\n")
 	return nil
 }
-- 
2.43.0


From cc9f808d24faa7d034feef5644d8b62cc15d9a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:50 +0000
Subject: [PATCH 12/28] fix: concurrent starts of the maintenance loop can not
 both succeed

---
 data/data.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/data/data.go b/data/data.go
index c4410c5..627b8b5 100644
--- a/data/data.go
+++ b/data/data.go
@@ -144,11 +144,10 @@ func (dt *Data) CheckIfActive() bool {
 
 // Run runs statistical calculation regularly
 func (dt *Data) Run() error {
-	if atomic.LoadInt32(&dt.Runs) >= 1 {
+	if !atomic.CompareAndSwapInt32(&dt.Runs, 0, 1) {
 		log.Printf("Multiple Run calls detected.")
 		return errors.New("Another instance of processor is running for data")
 	}
-	atomic.AddInt32(&dt.Runs, 1)
 	defer atomic.AddInt32(&dt.Runs, -1)
 	nextTime := getCurrentTime()
 	gcCounter := 10
-- 
2.43.0


From 4523ac6a8409b6d329f8eee7303b8afda97ab764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:51 +0000
Subject: [PATCH 13/28] fix: concurrent config updates keep the highest
 version, and a config is read as a whole

---
 data/data.go    | 22 +++++++++++++++++-----
 data/dataset.go |  3 +--
 data/insert.go  |  9 +++++----
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/data/data.go b/data/data.go
index 627b8b5..d70bed1 100644
--- a/data/data.go
+++ b/data/data.go
@@ -59,6 +59,17 @@ func (d *Data) GetConfig() *pb.DataConfig {
 	return d.Config
 }
 
+// UpdateConfig replaces the config only if the new one has a higher version
+func (d *Data) UpdateConfig(config *pb.DataConfig) bool {
+	d.Lock()
+	defer d.Unlock()
+	if config.Version > d.Config.Version {
+		d.Config = config
+		return true
+	}
+	return false
+}
+
 // NewData creates a data struct
 func NewData(config *pb.DataConfig, dataPath string) (*Data, error) {
 	dt := &Data{
@@ -204,17 +215,18 @@ func CheckIfUnkownError(err error) bool {
 // GetDataInfo out of data
 func (dt *Data) GetDataInfo() *pb.DataInfo {
 	// log.Printf("Data: %v\n", dt)
+	config := dt.GetConfig() // config can be replaced any time
 	return &pb.DataInfo{
 		Avg:               dt.Avg,
 		N:                 dt.N,
 		MaxDistance:       dt.MaxDistance,
 		Hist:              dt.Hist,
 		Timestamp:         dt.Timestamp,
-		Version:           dt.Config.Version,
-		Name:              dt.Config.Name,
-		TargetN:           dt.Config.TargetN,
-		TargetUtilization: dt.Config.TargetUtilization,
-		NoTarget:          dt.Config.NoTarget,
+		Version:           config.Version,
+		Name:              config.Name,
+		TargetN:           config.TargetN,
+		TargetUtilization: config.TargetUtilization,
+		NoTarget:          config.NoTarget,
 	}
 }
 
diff --git a/data/dataset.go b/data/dataset.go
index 1ec258c..7d5071d 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -117,9 +117,8 @@ func (dts *Dataset) CreateIfNotExists(config *pb.DataConfig) error {
 	if err.Error() == fmt.Sprintf("Item %s already exists", config.Name) {
 		data, errGetNoOp := dts.GetNoOp(config.Name)
 		if errGetNoOp == nil {
-			if config.Version > data.Config.Version {
+			if data.UpdateConfig(config) {
 				log.Printf("Update Data %v Config.Version: %v\n", config.Name, config.Version)
-				data.Config = config
 			}
 		} else {
 			log.Printf("Error errGetNoOp: %v\n", errGetNoOp.Error())
diff --git a/data/insert.go b/data/insert.go
index 46b8ca2..b9382d5 100644
--- a/data/insert.go
+++ b/data/insert.go
@@ -9,7 +9,8 @@ import (
 
 // Insert inserts data to internal kv store
 func (dt *Data) Insert(datum *pb.Datum, config *pb.InsertConfig) error {
-	if dt.Config != nil && !dt.Config.NoTarget && dt.N >= dt.Config.TargetN {
+	dataConfig := dt.GetConfig() // config can be replaced any time
+	if dataConfig != nil && !dataConfig.NoTarget && dt.N >= dataConfig.TargetN {
 		return errors.New("Number of elements is over the target")
 	}
 	if dt.Initialized == false {
@@ -27,7 +28,7 @@ func (dt *Data) Insert(datum *pb.Datum, config *pb.InsertConfig) error {
 		}
 	}
 	counter := uint32(1)
-	if dt.Config.EnforceReplicationOnInsert && config.Count == 0 {
+	if dataConfig.EnforceReplicationOnInsert && config.Count == 0 {
 		config.Count++
 		// log.Printf("Sending Insert with config.Count: %v ttl: %v\n", config.Count, config.TTL)
 		dt.RunOnRandomSources(5, func(source DataSource) error {
@@ -38,12 +39,12 @@ func (dt *Data) Insert(datum *pb.Datum, config *pb.InsertConfig) error {
 			if err == nil {
 				counter++
 			}
-			if counter >= dt.Config.ReplicationOnInsert {
+			if counter >= dataConfig.ReplicationOnInsert {
 				return errors.New("Replication number reached")
 			}
 			return nil
 		})
-		if counter < dt.Config.ReplicationOnInsert {
+		if counter < dataConfig.ReplicationOnInsert {
 			return errors.New("Replicas is less then Replication Config")
 		}
 	}
-- 
2.43.0


From 5663a6e3f6ae0577d0daa09bb2317c17938c017b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:22 +0000
Subject: [PATCH 14/28] fix: a peer announcement is compared and stored at
 once, a newer one is not overwritten or deleted

---
 node/node.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/node/node.go b/node/node.go
index 95456da..8b7d7bd 100644
--- a/node/node.go
+++ b/node/node.go
@@ -6,6 +6,7 @@ import (
 	"runtime"
 	"sort"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/bgokden/go-cache"
@@ -45,6 +46,7 @@ type Node struct {
 	Dataset         *data.Dataset
 	ServiceList     *cache.Cache
 	PeerList        *cache.Cache
+	peerListMutex   sync.Mutex // entries of PeerList are replaced or deleted after a comparison
 	PeriodicTicker  *time.Ticker
 	PeriodicDone    chan bool
 	QueryUUIDCache  *cache.Cache
@@ -99,6 +101,14 @@ func (n *Node) CheckPeer(peer *pb.Peer) bool {
 			return true
 		}
 		idOfPeer := GetIdOfPeer(peer)
+		n.peerListMutex.Lock()
+		defer n.peerListMutex.Unlock()
+		if currentPeerInterface, ok := n.PeerList.Get(idOfPeer); ok {
+			if currentPeer, ok2 := currentPeerInterface.(*pb.Peer); ok2 && currentPeer.Timestamp > peer.Timestamp {
+				// A newer one is received meanwhile
+				return false
+			}
+		}
 		log.Printf("Deleting %v since %v is too old (t:%v)\n", idOfPeer, peer.Timestamp, getCurrentTime())
 		n.PeerList.Delete(idOfPeer)
 	}
@@ -108,6 +118,8 @@ func (n *Node) CheckPeer(peer *pb.Peer) bool {
 func (n *Node) AddPeerElement(peer *pb.Peer) error {
 	if !n.isPeerSimilarToNode(peer) {
 		idOfPeer := GetIdOfPeer(peer)
+		n.peerListMutex.Lock()
+		defer n.peerListMutex.Unlock()
 		if oldPeerInterface, ok := n.PeerList.Get(idOfPeer); ok {
 			if oldPeer, ok2 := oldPeerInterface.(*pb.Peer); ok2 {
 				if oldPeer.Timestamp >= peer.Timestamp {
-- 
2.43.0


From fb00d2cbfcfcc7120d357daa5fa6f30332fcf6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:49 +0000
Subject: [PATCH 15/28] fix: a draining node is never reported as ready

---
 server/httpservice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/httpservice.go b/server/httpservice.go
index 3aa7590..6c901c6 100644
--- a/server/httpservice.go
+++ b/server/httpservice.go
@@ -15,7 +15,7 @@ import (
 // var Ready = false
 
 func GetReady(w http.ResponseWriter, r *http.Request) {
-	if state.Ready {
+	if state.Ready && !state.Drain { // a draining node does not get ready again by syncing with peers
 		w.WriteHeader(http.StatusOK)
 		w.Header().Set("Content-Type", "application/json")
 		io.WriteString(w, `{"alive": true}`)
-- 
2.43.0


From 80445b3a55cff033ba3bc797965a11d68bbc9390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:51 +0000
Subject: [PATCH 16/28] fix: the index is saved atomically, one save at a time

---
 data/dataset.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/data/dataset.go b/data/dataset.go
index 7d5071d..61cded8 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"os"
 	"path"
+	"sync"
 	"time"
 
 	"github.com/bgokden/go-cache"
@@ -19,6 +20,8 @@ type Dataset struct {
 	DataList *cache.Cache
 	Path     string
 	DataPath string
+
+	indexMutex sync.Mutex // index file is loaded or saved by only one at a time
 }
 
 func closeData(key string, value interface{}) {
@@ -163,6 +166,8 @@ func (dts *Dataset) DataConfigList() []*pb.DataConfig {
 }
 
 func (dts *Dataset) LoadIndex() error {
+	dts.indexMutex.Lock() // saves started by created datasets wait until everything is loaded
+	defer dts.indexMutex.Unlock()
 	indexPath := path.Join(dts.Path, "index.save")
 	file, err := os.OpenFile(indexPath, os.O_APPEND|os.O_CREATE|os.O_RDONLY, 0644)
 	if err != nil {
@@ -206,9 +211,12 @@ func (dts *Dataset) ReloadRuns() error {
 }
 
 func (dts *Dataset) SaveIndex() error {
+	dts.indexMutex.Lock()
+	defer dts.indexMutex.Unlock()
 	indexPath := path.Join(dts.Path, "index.save")
+	tempPath := indexPath + ".tmp" // index is replaced at once when it is complete
 	sourceList := dts.DataList.Items()
-	file, err := os.OpenFile(indexPath, os.O_TRUNC|os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+	file, err := os.OpenFile(tempPath, os.O_TRUNC|os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		return err
 	}
@@ -220,9 +228,15 @@ func (dts *Dataset) SaveIndex() error {
 		_, _ = datawriter.WriteString(string(jsonData) + "\n")
 
 	}
-	datawriter.Flush()
+	err = datawriter.Flush()
+	if err == nil {
+		err = file.Sync()
+	}
 	file.Close()
-	return nil
+	if err != nil {
+		return err
+	}
+	return os.Rename(tempPath, indexPath)
 }
 
 func (dts *Dataset) Close() error {
-- 
2.43.0


From e38d1dd5f9c3f869ef4307d77cf39b548d608d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:35 +0000
Subject: [PATCH 17/28] fix: saving or listing the index does not recreate a
 deleted dataset

---
 data/dataset.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/data/dataset.go b/data/dataset.go
index 61cded8..9c95765 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -157,10 +157,10 @@ func (dts *Dataset) List() []string {
 func (dts *Dataset) DataConfigList() []*pb.DataConfig {
 	sourceList := dts.DataList.Items()
 	configs := make([]*pb.DataConfig, 0, len(sourceList))
-	for k := range sourceList {
-		data, _ := dts.Get(k)
-		config := data.GetConfig()
-		configs = append(configs, config)
+	for _, item := range sourceList {
+		if data, ok := item.Object.(*Data); ok {
+			configs = append(configs, data.GetConfig())
+		}
 	}
 	return configs
 }
@@ -221,12 +221,11 @@ func (dts *Dataset) SaveIndex() error {
 		return err
 	}
 	datawriter := bufio.NewWriter(file)
-	for k := range sourceList {
-		data, _ := dts.Get(k)
-		config := data.GetConfig()
-		jsonData, _ := json.Marshal(config)
-		_, _ = datawriter.WriteString(string(jsonData) + "\n")
-
+	for _, item := range sourceList {
+		if data, ok := item.Object.(*Data); ok { // getting by name would recreate a deleted dataset
+			jsonData, _ := json.Marshal(data.GetConfig())
+			_, _ = datawriter.WriteString(string(jsonData) + "\n")
+		}
 	}
 	err = datawriter.Flush()
 	if err == nil {
@@ -242,9 +241,8 @@ func (dts *Dataset) SaveIndex() error {
 func (dts *Dataset) Close() error {
 	dts.SaveIndex()
 	datalist := dts.DataList.Items()
-	for k := range datalist {
-		data, err := dts.Get(k)
-		if err == nil {
+	for _, item := range datalist {
+		if data, ok := item.Object.(*Data); ok {
 			data.Close()
 		}
 	}
-- 
2.43.0


From 06e674098eec685a79fb8b76ed605853bb5805c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:32 +0000
Subject: [PATCH 18/28] fix: a dataset's folder is inside the data folder
 whatever its name is

---
 data/data.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/data/data.go b/data/data.go
index d70bed1..119a25b 100644
--- a/data/data.go
+++ b/data/data.go
@@ -3,6 +3,7 @@ package data
 import (
 	"errors"
 	"log"
+	"net/url"
 	"os"
 	"path"
 	"strings"
@@ -70,13 +71,21 @@ func (d *Data) UpdateConfig(config *pb.DataConfig) bool {
 	return false
 }
 
+// folderName returns a distinct folder name for each data name, it never leads to another folder
+func folderName(name string) string {
+	if name == "" || name == "." || name == ".." {
+		return "%" + name // escaped names never look like these
+	}
+	return url.PathEscape(name)
+}
+
 // NewData creates a data struct
 func NewData(config *pb.DataConfig, dataPath string) (*Data, error) {
 	dt := &Data{
 		Config: config,
 	}
 	// log.Printf("Create Data\n")
-	dt.DBPath = path.Join(dataPath, config.Name)
+	dt.DBPath = path.Join(dataPath, folderName(config.Name))
 	dt.InitData()
 	return dt, nil
 }
@@ -88,7 +97,7 @@ func NewPreData(config *pb.DataConfig, dataPath string) *Data {
 	}
 	atomic.StoreUint64(&(dt.RecentInsertCount), 0)
 	// log.Printf("Pre Create Data %v\n", dt.Config)
-	dt.DBPath = path.Join(dataPath, config.Name)
+	dt.DBPath = path.Join(dataPath, folderName(config.Name))
 	return dt
 }
 
-- 
2.43.0


From a5b59e7a13285ea3fb0e44bfc1ada86d120d6fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:05 +0000
Subject: [PATCH 19/28] fix: an insert without a key is refused, and one
 without a value does not crash readers

---
 data/newsync.go     | 7 +++++++
 node/nodeservice.go | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/data/newsync.go b/data/newsync.go
index 4e93e89..e984787 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -2,6 +2,7 @@ package data
 
 import (
 	"bytes"
+	"errors"
 	"io/ioutil"
 	"log"
 	"math/rand"
@@ -25,6 +26,12 @@ func CloseEnough(a, b int64) bool {
 }
 
 func (dt *Data) InsertBDMap(datum *pb.Datum, config *pb.InsertConfig) error {
+	if datum.GetKey() == nil {
+		return errors.New("Datum key is missing")
+	}
+	if datum.Value == nil {
+		datum.Value = &pb.DatumValue{} // readers expect a value
+	}
 	now := time.Now().Unix()
 	exprireAt := int64(0)
 	if config != nil && config.TTL != 0 {
diff --git a/node/nodeservice.go b/node/nodeservice.go
index f7cde60..5e65a09 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -39,6 +39,9 @@ func (n *Node) Insert(ctx context.Context, insertionRequest *pb.InsertionRequest
 	config := insertionRequest.GetConfig()
 	datum := insertionRequest.GetDatum()
 	name := insertionRequest.GetDataName()
+	if datum.GetKey() == nil {
+		return nil, errors.New("Datum key is missing")
+	}
 	dt, err := n.Dataset.Get(name)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From cb565837f10ad955541940322fcb186239e8bf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:05 +0000
Subject: [PATCH 20/28] fix: a search without config or keys is refused instead
 of crashing the node

---
 node/nodeservice.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/node/nodeservice.go b/node/nodeservice.go
index 5e65a09..b9fc73e 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -119,6 +119,19 @@ func (n *Node) GetDataInfo(ctx context.Context, getDataRequest *pb.GetDataReques
 
 func (n *Node) SearchStream(searchRequest *pb.SearchRequest, stream pb.VeriService_SearchStreamServer) error {
 	config := searchRequest.GetConfig()
+	if config == nil {
+		return errors.New("Search config is missing")
+	}
+	for _, datum := range searchRequest.GetDatum() {
+		if datum.GetKey() == nil {
+			return errors.New("Datum key is missing")
+		}
+	}
+	for _, datum := range searchRequest.GetContext().GetDatum() {
+		if datum.GetKey() == nil {
+			return errors.New("Context datum key is missing")
+		}
+	}
 	uid := config.GetUuid()
 	if uid == "" {
 		uid, err := uuid.NewRandom()
-- 
2.43.0


From 5db0643d736029d1cca694c43572709171b01ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:05 +0000
Subject: [PATCH 21/28] fix: a very large result limit does not crash the
 search

---
 data/aggregator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index 0e961cd..c525a53 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -161,7 +161,7 @@ func (a *Aggregator) Result() []*pb.ScoredDatum {
 		}
 		return agg.Result()
 	} else {
-		if a.Config.ResultLimit > 0 && len(a.List) > int(a.Config.ResultLimit) {
+		if a.Config.ResultLimit > 0 && uint64(len(a.List)) > a.Config.ResultLimit {
 			return a.List[:a.Config.ResultLimit]
 		}
 		return a.List
-- 
2.43.0


From e30b38e5885b0dba4d67fce6716376288b250b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:05 +0000
Subject: [PATCH 22/28] fix: a large limit does not allocate memory for results
 that do not exist

---
 data/search.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/search.go b/data/search.go
index 0610907..7a06402 100644
--- a/data/search.go
+++ b/data/search.go
@@ -308,7 +308,7 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 		config = DefaultSearchConfig()
 	}
 	c := &Collector{}
-	c.List = make([]*pb.ScoredDatum, 0, config.Limit)
+	c.List = make([]*pb.ScoredDatum, 0) // limit can be much larger than the data
 	c.DatumKey = datum.Key
 	c.ScoreFunc = GetVectorComparisonFunction(config.ScoreFuncName)
 	c.HigherIsBetter = config.HigherIsBetter
@@ -356,7 +356,7 @@ func (dt *Data) Search(datum *pb.Datum, config *pb.SearchConfig, c *Collector) *
 			config = DefaultSearchConfig()
 		}
 		c = &Collector{}
-		c.List = make([]*pb.ScoredDatum, 0, config.Limit)
+		c.List = make([]*pb.ScoredDatum, 0) // limit can be much larger than the data
 		c.DatumKey = datum.Key
 		c.ScoreFunc = GetVectorComparisonFunction(config.ScoreFuncName)
 		c.HigherIsBetter = config.HigherIsBetter
-- 
2.43.0


From 2296929f6dfb422ec2aeb8ea65924f0751ef5e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:05 +0000
Subject: [PATCH 23/28] fix: an announcement without a peer is refused instead
 of crashing the node

---
 node/node.go        | 4 ++++
 node/nodeservice.go | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/node/node.go b/node/node.go
index 8b7d7bd..492b9cf 100644
--- a/node/node.go
+++ b/node/node.go
@@ -1,6 +1,7 @@
 package node
 
 import (
+	"errors"
 	"fmt"
 	"log"
 	"runtime"
@@ -116,6 +117,9 @@ func (n *Node) CheckPeer(peer *pb.Peer) bool {
 }
 
 func (n *Node) AddPeerElement(peer *pb.Peer) error {
+	if peer == nil {
+		return errors.New("Peer is missing")
+	}
 	if !n.isPeerSimilarToNode(peer) {
 		idOfPeer := GetIdOfPeer(peer)
 		n.peerListMutex.Lock()
diff --git a/node/nodeservice.go b/node/nodeservice.go
index b9fc73e..1d737be 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -55,7 +55,10 @@ func (n *Node) Insert(ctx context.Context, insertionRequest *pb.InsertionRequest
 
 func (n *Node) Join(ctx context.Context, joinRequest *pb.JoinRequest) (*pb.JoinResponse, error) {
 	peer := joinRequest.GetPeer()
-	n.AddPeerElement(peer)
+	err := n.AddPeerElement(peer)
+	if err != nil {
+		return nil, err
+	}
 	address := ""
 	p, ok := grpcPeer.FromContext(ctx)
 	if !ok {
-- 
2.43.0


From 54ff5c8298546b21fb2934c3574704e9fb6ab12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:05 +0000
Subject: [PATCH 24/28] fix: node info does not crash on datasets being deleted
 or created

---
 node/node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node/node.go b/node/node.go
index 492b9cf..6c31e6a 100644
--- a/node/node.go
+++ b/node/node.go
@@ -368,6 +368,10 @@ func (n *Node) Info() string {
 			sb.WriteString(fmt.Sprintf("* Name %v N: %v config %v\n", name, dinfo.N, config))
 		} else {
 			sb.WriteString(fmt.Sprintf("* Name %v Error: %v\n", name, err.Error()))
+			continue
+		}
+		if dt.Sources == nil { // Not initialized yet
+			continue
 		}
 		sourceList := dt.Sources.Items()
 		for _, sourceItem := range sourceList {
-- 
2.43.0


From 7c79d4eab8c934dc006ed8580db7957a73a0796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:05 +0000
Subject: [PATCH 25/28] fix: an unreachable peer does not crash the check of
 active datasets

---
 data/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/data.go b/data/data.go
index 119a25b..d47703c 100644
--- a/data/data.go
+++ b/data/data.go
@@ -154,7 +154,7 @@ func (dt *Data) CheckIfActive() bool {
 		sourceList := dt.Sources.Items()
 		for _, sourceItem := range sourceList { // Assumption is that random map runs are random enough
 			source := sourceItem.Object.(DataSource)
-			if source.GetDataInfo().N > 0 {
+			if source.GetDataInfo().GetN() > 0 { // info is nil if the source is not available
 				return true
 			}
 		}
-- 
2.43.0


From 1590270024a1bf1222e2ee351b530c3cf4a0a4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:00 +0000
Subject: [PATCH 26/28] fix: a dataset with entries that are not counted yet is
 not dropped as inactive

---
 data/data.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/data/data.go b/data/data.go
index d47703c..584936a 100644
--- a/data/data.go
+++ b/data/data.go
@@ -150,6 +150,14 @@ func (dt *Data) CheckIfActive() bool {
 	if dt.N > 0 {
 		return true
 	}
+	hasEntry := false // N does not include what is inserted after the last run
+	dt.LoopDBMap(func(entry *DBMapEntry) error {
+		hasEntry = true
+		return errors.New("Entry found")
+	})
+	if hasEntry {
+		return true
+	}
 	if dt.Sources != nil && len(dt.Sources.Items()) > 0 {
 		sourceList := dt.Sources.Items()
 		for _, sourceItem := range sourceList { // Assumption is that random map runs are random enough
-- 
2.43.0


From 8b8575d4c903fd4cc9e9d82eda0aac73f58dfc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:10 +0000
Subject: [PATCH 27/28] fix: closing a dataset hands over entries that are not
 counted yet

---
 data/data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/data/data.go b/data/data.go
index 584936a..41bc6fb 100644
--- a/data/data.go
+++ b/data/data.go
@@ -129,6 +129,12 @@ func NewTempData() (*Data, error) {
 func (dt *Data) Close() error {
 	dt.Alive = false
 	if dt.Sources != nil && len(dt.Sources.Items()) > 0 {
+		n := uint64(0) // N does not include what is inserted after the last run
+		dt.LoopDBMap(func(entry *DBMapEntry) error {
+			n++
+			return nil
+		})
+		dt.N = n
 		for dt.N > 0 {
 			dt.Process(true)
 		}
-- 
2.43.0


From 482cb27650f58d4f1cc510861b1491c7beee9c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:55 +0000
Subject: [PATCH 28/28] fix: a failed start does not remove the given data
 directory

---
 server/veriserviceserver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/veriserviceserver.go b/server/veriserviceserver.go
index 429ff0d..4831472 100644
--- a/server/veriserviceserver.go
+++ b/server/veriserviceserver.go
@@ -53,9 +53,9 @@ func RunServer(configMap map[string]interface{}) {
 		if err != nil {
 			log.Fatal(err)
 		}
+		defer os.RemoveAll(directory) // a given directory is kept, also when serving fails
 	}
 	os.MkdirAll(directory, os.ModePerm)
-	defer os.RemoveAll(directory)
 	broadcast := configMap["broadcast"].(string)
 	broadcastAddresses := make([]string, 0)
 	if len(broadcast) > 0 {
-- 
2.43.0

