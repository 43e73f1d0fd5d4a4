package main

import "strings"

// primitiveIface lists interface methods that are always reported as events,
// even where the repository contains a single implementation.
var primitiveIface = map[string]bool{}

func init() {
	for _, m := range []string{"Get", "List", "Create", "Update", "Delete", "Deliver"} {
		primitiveIface["(runtime/client.Client)."+m] = true
	}
	for _, m := range []string{"Get", "Set", "Has", "Delete", "Iterate", "IteratePrefix"} {
		primitiveIface["(runtime/kv.KV)."+m] = true
	}
	for _, m := range []string{"Create", "Get", "Update", "Delete"} {
		primitiveIface["(runtime/orm.ObjectsStore)."+m] = true
	}
	for _, m := range []string{"Index", "ClearIndexes", "List"} {
		primitiveIface["(runtime/orm.Indexer)."+m] = true
	}
	primitiveIface["(runtime/authorization.Authorizer).Authorize"] = true
	primitiveIface["(runtime/authentication.TxDecoder).DecodeTx"] = true
	primitiveIface["(runtime/authentication.AdmissionHandler).Validate"] = true
	primitiveIface["(runtime/authentication.PostAuthenticationHandler).Exec"] = true
	primitiveIface["(runtime/statetransition.AdmissionHandler).Validate"] = true
	primitiveIface["(runtime/statetransition.ExecutionHandler).Exec"] = true
	primitiveIface["(runtime/statetransition.PreExecutionHandler).PreExec"] = true
	primitiveIface["(runtime/statetransition.PostExecutionHandler).PostExec"] = true
	primitiveIface["(x/authn/crypto.PubKey).VerifySignature"] = true
	for _, m := range []string{"Default", "Import", "Export"} {
		primitiveIface["(runtime/module.GenesisHandler)."+m] = true
	}
	for _, m := range []string{"Name", "SetClient", "Start", "Stop"} {
		primitiveIface["(runtime/module.ExtensionService)."+m] = true
	}
	primitiveIface["(runtime/module.Module).Initialize"] = true
}

// pureIface: interface methods that only read an immutable value.
var pureIface = map[string]bool{}

func init() {
	for _, m := range []string{"StateTransitions", "Users", "Fee", "Payer", "Raw", "RawBytes"} {
		pureIface["(runtime/authentication.Tx)."+m] = true
	}
	for _, m := range []string{"Has", "List", "String"} {
		pureIface["(runtime/authentication/user.Users)."+m] = true
	}
	for _, m := range []string{"GetName", "GetExtra", "String"} {
		pureIface["(runtime/authentication/user.User)."+m] = true
	}
	pureIface["(core/meta.APIObject).APIDefinition"] = true
	pureIface["(core/meta.StateObject).NewStateObject"] = true
	pureIface["(core/meta.StateTransition).NewStateTransition"] = true
	pureIface["(core/meta.ID).Bytes"] = true
	pureIface["core/meta.Name"] = true
	pureIface["(*core/meta.APIDefinition).Name"] = true
	for _, m := range []string{"Address", "Bytes", "Type", "Equals"} {
		pureIface["(x/authn/crypto.PubKey)."+m] = true
	}
	for _, m := range []string{"VerifySignature"} {
		pureIface["(x/authn/crypto.PubKey)."+m] = true
	}
	pureIface["(error).Error"] = true
}

var purePkgs = []string{"strings.", "strconv.", "bytes.", "errors.", "path.", "math.", "unicode.", "encoding/base64.",
	"google.golang.org/protobuf/encoding/protowire.", "github.com/cosmos/cosmos-sdk/types/bech32.", "sort.Search", "net/http.StatusText",
	"google.golang.org/protobuf/reflect/protodesc.ToFileDescriptorProto", "google.golang.org/protobuf/proto.MessageName",
	"google.golang.org/protobuf/reflect/protoreflect.Value", "google.golang.org/protobuf/proto.GetExtension"}

func defaultPure(name string) bool {
	if pureIface[name] {
		return true
	}
	switch name {
	case "fmt.Sprintf", "fmt.Errorf", "fmt.Sprint", "fmt.Sprintln", "runtime/errors.Is", "runtime/errors.New", "google.golang.org/protobuf/proto.Equal":
		return true
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	if strings.HasPrefix(name, "(google.golang.org/protobuf/reflect/protoreflect.") {
		for _, m := range []string{"Set", "Clear", "Mutable", "Append", "Truncate", "Put", "AppendMutable"} {
			if strings.HasSuffix(name, ")."+m) {
				return false
			}
		}
		return true
	}
	if strings.HasPrefix(name, "(*github.com/scylladb/go-set/strset.Set).Has") {
		return true
	}
	if strings.HasPrefix(name, "(github.com/cosmos/cosmos-sdk/types.Coins).") || strings.HasPrefix(name, "(github.com/cosmos/cosmos-sdk/types.Int).") || name == "github.com/cosmos/cosmos-sdk/types.ParseCoinsNormalized" {
		return true
	}
	if strings.HasSuffix(name, ").ProtoReflect") {
		return true
	}
	if strings.HasSuffix(name, ").APIDefinition") || strings.HasSuffix(name, ").NewStateObject") || strings.HasSuffix(name, ").NewStateTransition") {
		return true
	}
	if strings.HasPrefix(name, "(*strings.Builder).") {
		return false
	}
	return false
}

// defaultReadOnly: opaque calls that do not write through their arguments.
func defaultReadOnly(name string) bool {
	if strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "k8s.io/klog") || strings.HasPrefix(name, "google.golang.org/protobuf/proto.Marshal") || strings.HasPrefix(name, "(google.golang.org/protobuf/proto.MarshalOptions)") || strings.HasPrefix(name, "google.golang.org/protobuf/encoding/protojson.Marshal") {
		return true
	}
	if strings.HasPrefix(name, "(runtime/client.Client).") {
		return !strings.HasSuffix(name, ".Get")
	}
	if primitiveIface[name] {
		return !strings.HasSuffix(name, ").Get")
	}
	return false
}
