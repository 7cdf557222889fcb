package main

const modelPkg = zz + "model"

func initModel() {
	for k, v := range map[string]string{
		"os.Open": "Open", "os.Create": "Create", "os.OpenFile": "OpenFile", "os.Stat": "Stat", "os.Lstat": "Lstat",
		"os.ReadFile": "ReadFile", "os.WriteFile": "WriteFile", "os.ReadDir": "ReadDir", "os.MkdirAll": "MkdirAll", "os.Mkdir": "Mkdir",
		"os.Remove": "Remove", "os.RemoveAll": "RemoveAll", "os.Rename": "Rename", "os.Chmod": "Chmod", "os.CreateTemp": "CreateTemp", "os.MkdirTemp": "MkdirTemp",
		"(*os.File).Sync": "FileSync", "(*os.File).Chmod": "FileChmod", "os.Getwd": "Getwd", "os.UserHomeDir": "UserHomeDir", "os.UserCacheDir": "UserCacheDir",
		"os.Getenv": "Getenv", "os.LookupEnv": "LookupEnv", "os.Setenv": "Setenv", "syscall.Getenv": "SyscallGetenv",
		"(*os.File).Read": "FileRead", "(*os.File).Close": "FileClose", "(*os.File).Name": "FileName", "(*os.File).Stat": "FileStat",
		"(*os.File).ReadDir": "FileReadDir", "(*os.File).Readdirnames": "FileReaddirnames", "(*os.File).Readdir": "FileReaddir", "(*os.File).Seek": "FileSeek",
		"encoding/json.Marshal": "JsonMarshal", "encoding/json.MarshalIndent": "JsonMarshalIndent", "encoding/json.Unmarshal": "JsonUnmarshal",
		"encoding/json.NewDecoder": "JsonNewDecoder", "(*encoding/json.Decoder).Decode": "JsonDecode", "(*encoding/json.Decoder).More": "JsonMore",
		"encoding/json.NewEncoder": "JsonNewEncoder", "(*encoding/json.Encoder).Encode": "JsonEncode", "(*encoding/json.Encoder).SetIndent": "JsonSetIndent",
		"(*encoding/json.Encoder).SetEscapeHTML": "JsonSetEscapeHTML", "(*encoding/json.Decoder).UseNumber": "JsonUseNumber", "(*encoding/json.Decoder).Token": "JsonToken",
		ndPkg + "Dir": "Dir", ndPkg + "WriteFile": "NdWriteFile", ndPkg + "Mkdir": "NdMkdir", ndPkg + "ReadFile": "NdReadFile",
		ndPkg + "Chdir": "NdChdir", ndPkg + "Setenv": "NdSetenv", ndPkg + "Stdin": "NdStdin",
	} {
		redirects[k] = v
		delete(intrinsics, k)
	}
	in := intrinsics
	in[ndPkg+"Stdout"] = func(w *Worker, a []Value) Value {
		w.specNo("nd")
		old, had := w.ctx["stdout"]
		w.ctx["stdout"] = mkStr("")
		w.callValue(a[0])
		r := w.ctx["stdout"].(Value)
		if had {
			w.ctx["stdout"] = old
		} else {
			delete(w.ctx, "stdout")
		}
		return r
	}
}
