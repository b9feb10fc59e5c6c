package files

import (
	"github.com/vivint/rothko/registry"

	zz "github.com/vivint/rothko/internal/zzverif"
)

//zz:cfg native=1 init=database/files,dist/tdigest reach=refused,made,wrong,absent
//zz:bounds a database made from a configuration with arbitrary 64-bit size, cap and files, handles among -1, 0, 1 and 40, a buffer among -9, 0, 1 and 20, workers among -1, 0, 1 and 5, drop, or with all of these left out, or any one of them of another type.
func ZZ_C24_options() {
	size, cap, files, handles := zz.Int64("size"), zz.Int64("cap"), zz.Int64("files"), []int64{-1, 0, 1, 40}[zz.Choose("handles", 4)]
	buffer, workers := []int64{-9, 0, 1, 20}[zz.Choose("buffer", 4)], []int64{-1, 0, 1, 5}[zz.Choose("workers", 4)]
	drop := zz.Bool("drop")
	dir := zz.String("dir", 2)
	tuning := map[string]interface{}{"buffer": buffer, "workers": workers, "handles": handles, "drop": drop}
	config := map[string]interface{}{"directory": dir, "size": size, "cap": cap, "files": files, "tuning": tuning}
	wrong := false
	switch zz.Choose("what", 4) {
	case 0:
		wrong = true
		key := []string{"directory", "size", "cap", "files", "tuning"}[zz.Choose("key", 5)]
		config[key] = []interface{}{7.5, true, map[string]interface{}{}}[zz.Choose("value", 3)]
		_, empty := config["tuning"].(map[string]interface{})
		zz.Assume(key != "tuning" || !empty)
		zz.Reach("wrong")
	case 1:
		wrong = true
		key := []string{"buffer", "workers", "handles", "drop"}[zz.Choose("key", 4)]
		tuning[key] = []interface{}{7.5, "7", map[string]interface{}{}}[zz.Choose("value", 3)]
	case 2:
		delete(config, "tuning")
		buffer, workers, handles, drop = 0, 0, 0, false
		zz.Reach("absent")
	}
	db, err := registry.NewDatabase(zzCtx, "files", config)
	if err != nil {
		zz.Assert(db == nil, "nothing is made along with an error")
		zz.Assert(wrong || buffer < 0 || workers < 0, "valid options are accepted")
		zz.Reach("refused")
		return
	}
	zz.Assert(!wrong, "options of the wrong type are an error")
	zz.Assert(buffer >= 0 && workers >= 0, "negative buffers and workers are an error")
	d := db.(*DB)
	zz.Assert(d.dir == dir, "the directory is carried over")
	o := d.opts
	zz.Assert(int64(o.Size) == size && int64(o.Cap) == cap && int64(o.Files) == files, "the sizes are carried over")
	zz.Assert(int64(o.Tuning.Buffer) == buffer && o.Tuning.Drop == drop, "the buffer options are carried over")
	if handles > 0 {
		zz.Assert(int64(o.Tuning.Handles) == handles, "the number of handles is carried over")
	}
	if workers > 0 {
		zz.Assert(int64(o.Tuning.Workers) == workers, "the number of workers is carried over")
	} else {
		zz.Assert(o.Tuning.Workers > 0, "there are workers by default")
	}
	zz.Reach("made")
}
