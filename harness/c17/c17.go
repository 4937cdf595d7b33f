// Package c17: the dataset index survives restart and crash.
package c17

import (
	"strings"

	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

var names = []string{"a", "b\"\n", "c/ü"}

func anyConfig(name string) *pb.DataConfig {
	return &pb.DataConfig{Name: name, Version: rt.U64("version"), TargetN: rt.U64("target"), NoTarget: rt.Bool("notarget"), Retention: 0,
		TargetUtilization: []float64{0, 0.4, 1}[rt.Choose("util", 3)], ReplicationOnInsert: rt.U32("repl"), EnforceReplicationOnInsert: rt.Bool("enforce")}
}

func plainConfig(i int) *pb.DataConfig {
	return &pb.DataConfig{Name: names[i], Version: uint64(i + 1), TargetN: uint64(10 * (i + 1)), TargetUtilization: 0.5, EnforceReplicationOnInsert: i == 0}
}

func same(a, b *pb.DataConfig) bool {
	ok := rt.And(a.Version == b.Version, rt.And(a.TargetN == b.TargetN, a.NoTarget == b.NoTarget))
	ok = rt.And(ok, rt.And(a.Retention == b.Retention, rt.F64BitsEq(a.TargetUtilization, b.TargetUtilization)))
	return rt.And(ok, rt.And(a.Name == b.Name, rt.And(a.ReplicationOnInsert == b.ReplicationOnInsert, a.EnforceReplicationOnInsert == b.EnforceReplicationOnInsert)))
}

// restarted reads the folder as a new process would, and returns the configurations by name.
func restarted() map[string]*pb.DataConfig {
	m := map[string]*pb.DataConfig{}
	rt.NoPreempt(func() {
		dts := data.NewDataset(rt.Scratch())
		for _, c := range dts.DataConfigList() {
			rt.Assert(m[c.Name] == nil, "a dataset is restored once")
			m[c.Name] = c
		}
		rt.Assert(len(dts.List()) == len(m), "every restored dataset is listed")
		rt.Quiesce()
	})
	return m
}

func sets(m map[string]*pb.DataConfig) (has [3]bool) {
	n := 0
	for i, s := range names {
		if m[s] != nil {
			has[i] = true
			n++
		}
	}
	rt.Assert(n == len(m), "no other datasets are restored")
	return
}

// Save and restart.
//gosym: reach=end budget=200
//bound: 0..3 datasets (names with quotes, newlines, slashes and non-ASCII letters) with any configuration options, possibly re-configured, saved and restarted twice
func Check_Restart() {
	rt.SetClock(1000000000)
	dts := data.NewDataset(rt.Scratch())
	n := rt.Choose("n", 4)
	want := map[string]*pb.DataConfig{}
	for i := 0; i < n; i++ {
		var c *pb.DataConfig
		if i == 0 {
			c = anyConfig(names[0])
		} else {
			c = plainConfig(i)
		}
		rt.Assert(dts.CreateIfNotExists(c) == nil, "the dataset is created")
		want[c.Name] = c
	}
	if n > 1 && rt.Choose("update", 2) == 1 {
		c := plainConfig(1)
		c.Version, c.TargetN = 99, rt.U64("target")
		rt.Assert(dts.CreateIfNotExists(c) == nil, "the new configuration is accepted")
		want[c.Name] = c
	}
	if n > 2 && rt.Choose("delete", 2) == 1 {
		rt.Assert(dts.Delete(names[2]) == nil, "the dataset is deleted")
		delete(want, names[2])
	}
	rt.Assert(dts.SaveIndex() == nil, "saving succeeds")
	hkit.Settle()
	for round := 0; round < 2; round++ {
		got := restarted()
		rt.Assert(len(got) == len(want), "exactly the saved datasets are restored")
		for name, w := range want {
			g := got[name]
			rt.Assert(g != nil, "every saved dataset is restored")
			rt.Assert(same(g, w), "all configuration options are restored")
		}
	}
	rt.Reach("end")
}

// Names and contents of the index larger than usual buffers.
//gosym: reach=end budget=100 steps=20000000
//bound: 3 datasets, the name of any one of them 4200 or 9000 characters long (also of characters that are escaped), saved and restarted twice
func Check_LongNames() {
	rt.SetClock(1000000000)
	dts := data.NewDataset(rt.Scratch())
	long := rt.Choose("which", 3)
	unit := []string{"n", "\"", "ü/"}[rt.Choose("what", 3)]
	name := strings.Repeat(unit, []int{4200, 9000}[rt.Choose("length", 2)]/len(unit))
	want := map[string]*pb.DataConfig{}
	for i := range names {
		c := plainConfig(i)
		if i == long {
			c.Name = name
		}
		rt.Assert(dts.CreateIfNotExists(c) == nil, "the dataset is created")
		want[c.Name] = c
	}
	rt.Assert(dts.SaveIndex() == nil, "saving succeeds")
	hkit.Settle()
	for round := 0; round < 2; round++ {
		got := restarted()
		rt.Assert(len(got) == len(want), "exactly the saved datasets are restored")
		for name, w := range want {
			g := got[name]
			rt.Assert(g != nil, "every saved dataset is restored")
			rt.Assert(same(g, w), "all configuration options are restored")
		}
	}
	rt.Reach("end")
}

// A crash at any point.
//gosym: reach=crashed,survived,before,after nonative budget=300
//bound: 0..2 saved datasets; a process that starts, creates or deletes one more and saves, killed before or inside any of its first 60 file operations (a write cut to none, half or all but one byte)
func Check_Crash() {
	rt.SetClock(1000000000)
	n := rt.Choose("n", 3)
	rt.NoPreempt(func() {
		dts := data.NewDataset(rt.Scratch())
		for i := 0; i < n; i++ {
			rt.Assert(dts.CreateIfNotExists(plainConfig(i)) == nil, "the dataset is created")
		}
		rt.Assert(dts.SaveIndex() == nil, "saving succeeds")
		rt.Quiesce()
	})
	del := n > 0 && rt.Choose("delete", 2) == 1
	crashed := rt.Crash(60, func() {
		dts := data.NewDataset(rt.Scratch())
		rt.Quiesce()
		if del {
			dts.Delete(names[0])
		} else {
			dts.CreateIfNotExists(plainConfig(2))
		}
		dts.SaveIndex()
		rt.Quiesce()
	})
	got := restarted()
	has := sets(got)
	for i := 0; i < 2; i++ {
		if i == 0 && del {
			continue
		}
		rt.Assert(has[i] == (i < n), "datasets that are neither created nor deleted meanwhile are restored")
		if has[i] {
			rt.Assert(same(got[names[i]], plainConfig(i)), "all configuration options are restored")
		}
	}
	changed := has[2]
	if del {
		changed = !has[0]
		rt.Assert(!has[2], "no other datasets are restored")
		if has[0] {
			rt.Assert(same(got[names[0]], plainConfig(0)), "all configuration options are restored")
		}
	} else if has[2] {
		rt.Assert(same(got[names[2]], plainConfig(2)), "all configuration options are restored")
	}
	if crashed {
		rt.Reach("crashed")
	} else {
		rt.Reach("survived")
		rt.Assert(changed, "a completed save is restored")
	}
	if changed {
		rt.Reach("after")
	} else {
		rt.Reach("before")
	}
}

// Saves running at the same time.
//gosym: preempt=2 reach=end nonative budget=300
//gosym:thorough preempt=3 budget=900
//bound: 1..2 datasets, a save concurrent with another creation (which saves too): all schedules with up to 2 preemptions (thorough 3)
func Check_ConcurrentSaves() {
	rt.SetClock(1000000000)
	var dts *data.Dataset
	n := 1 + rt.Choose("n", 2)
	rt.NoPreempt(func() {
		dts = data.NewDataset(rt.Scratch())
		for i := 0; i < n; i++ {
			rt.Assert(dts.CreateIfNotExists(plainConfig(i)) == nil, "the dataset is created")
		}
		rt.Quiesce()
	})
	done := make(chan bool, 1)
	go func() {
		rt.Assert(dts.CreateIfNotExists(plainConfig(2)) == nil, "the dataset is created")
		rt.Assert(dts.SaveIndex() == nil, "saving succeeds")
		done <- true
	}()
	rt.Assert(dts.SaveIndex() == nil, "saving succeeds")
	<-done
	rt.Preempt(0)
	hkit.Settle()
	has := sets(restarted())
	for i := 0; i < n; i++ {
		rt.Assert(has[i], "every dataset is restored after concurrent saves")
	}
	rt.Assert(has[2], "a dataset whose save has completed is restored")
	rt.Reach("end")
}

// A crash while saves run at the same time.
//gosym: preempt=1 reach=end nonative budget=300
//gosym:thorough preempt=2 budget=900
//bound: 2 saved datasets, two concurrent saves, killed before or inside any of the first 40 file operations: all schedules with up to 1 preemption (thorough 2)
func Check_CrashConcurrent() {
	rt.SetClock(1000000000)
	var dts *data.Dataset
	rt.NoPreempt(func() {
		dts = data.NewDataset(rt.Scratch())
		for i := 0; i < 2; i++ {
			rt.Assert(dts.CreateIfNotExists(plainConfig(i)) == nil, "the dataset is created")
		}
		rt.Assert(dts.SaveIndex() == nil, "saving succeeds")
		rt.Quiesce()
	})
	rt.Crash(40, func() {
		done := make(chan bool, 1)
		go func() { dts.SaveIndex(); done <- true }()
		dts.SaveIndex()
		<-done
	})
	rt.Preempt(0)
	has := sets(restarted())
	rt.Assert(has[0] && has[1] && !has[2], "both datasets are restored whatever the crash point")
	rt.Reach("end")
}

// Deleting while saving.
//gosym: preempt=2 reach=end nonative budget=300
//gosym:thorough preempt=3 budget=900
//bound: 2 datasets, one deleted while the index is saved or the datasets are listed: all schedules with up to 2 preemptions (thorough 3)
func Check_DeleteWhileSaving() {
	rt.SetClock(1000000000)
	var dts *data.Dataset
	rt.NoPreempt(func() {
		dts = data.NewDataset(rt.Scratch())
		for i := 0; i < 2; i++ {
			rt.Assert(dts.CreateIfNotExists(plainConfig(i)) == nil, "the dataset is created")
		}
		rt.Quiesce()
	})
	list := rt.Choose("list", 2) == 1
	done := make(chan bool, 1)
	go func() {
		if list {
			for _, c := range dts.DataConfigList() {
				rt.Assert(c.Name == names[0] || c.Name == names[1], "only existing datasets are listed")
			}
		} else {
			dts.SaveIndex()
		}
		done <- true
	}()
	rt.Assert(dts.Delete(names[1]) == nil, "the dataset is deleted")
	<-done
	rt.Preempt(0)
	hkit.Settle()
	_, err := dts.GetNoCreate(names[1])
	rt.Assert(err != nil, "a deleted dataset does not come back")
	has := sets(restarted())
	rt.Assert(has[0] && !has[1] && !has[2], "exactly the remaining dataset is restored")
	rt.Reach("end")
}

// A large index.
//gosym: preempt=0 reach=end budget=100
//gosym:thorough budget=200
//bound: 60 datasets (an index larger than a read buffer), restarted
func Check_Large() {
	rt.SetClock(1000000000)
	const n = 60
	name := func(i int) string { return "dataset-" + string([]byte{byte('0' + i/10), byte('0' + i%10)}) }
	rt.NoPreempt(func() {
		dts := data.NewDataset(rt.Scratch())
		for i := 0; i < n; i++ {
			rt.Assert(dts.CreateIfNotExists(&pb.DataConfig{Name: name(i), Version: 123456789, TargetN: 1234567890, TargetUtilization: 0.5, ReplicationOnInsert: 3, EnforceReplicationOnInsert: true}) == nil, "the dataset is created")
		}
		rt.Assert(dts.SaveIndex() == nil, "saving succeeds")
		rt.Quiesce()
	})
	dts := data.NewDataset(rt.Scratch())
	rt.Preempt(0)
	m := map[string]bool{}
	for _, k := range dts.List() {
		m[k] = true
	}
	for i := 0; i < n; i++ {
		rt.Assert(m[name(i)], "every dataset of a large index is restored")
	}
	rt.Assert(len(m) == n, "no other datasets are restored")
	rt.Reach("end")
}
