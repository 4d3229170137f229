package main

import (
	"github.com/drone/drone-yaml/yaml"
)

// The model: what a manifest means, independent of the code
// under test and of the way it is written down.

// Val is an opaque yaml value.
type Val struct {
	K string `json:"k"` // s, i, u, f, b, n, l, m
	S string `json:"s,omitempty"`
	I int    `json:"i,omitempty"`
	U uint64 `json:"u,omitempty"`
	F string `json:"f,omitempty"` // text of the float
	B bool   `json:"b,omitempty"`
	L []Val  `json:"l,omitempty"`
	M []KVal `json:"m,omitempty"`
}

type KVal struct {
	K Val `json:"k"`
	V Val `json:"v"`
}

type KV struct {
	K string `json:"k"`
	V string `json:"v"`
}

type Cond struct {
	Inc []string `json:"inc,omitempty"`
	Exc []string `json:"exc,omitempty"`
}

// When maps the condition name to the condition.
type When struct {
	Action   Cond `json:"action,omitempty"`
	Cron     Cond `json:"cron,omitempty"`
	Ref      Cond `json:"ref,omitempty"`
	Repo     Cond `json:"repo,omitempty"`
	Instance Cond `json:"instance,omitempty"`
	Target   Cond `json:"target,omitempty"`
	Event    Cond `json:"event,omitempty"`
	Branch   Cond `json:"branch,omitempty"`
	Status   Cond `json:"status,omitempty"`
	Paths    Cond `json:"paths,omitempty"`
	Matrix   []KV `json:"matrix,omitempty"`
}

type BuildM struct {
	Args       []KV     `json:"args,omitempty"`
	CacheFrom  []string `json:"cache_from,omitempty"`
	Context    string   `json:"context,omitempty"`
	Dockerfile string   `json:"dockerfile,omitempty"`
	Image      string   `json:"image,omitempty"`
	Labels     []KV     `json:"labels,omitempty"`
}

type EnvM struct {
	K      string `json:"k"`
	V      string `json:"v,omitempty"`
	Secret string `json:"secret,omitempty"`
	Null   bool   `json:"null,omitempty"`
}

type SetM struct {
	K      string `json:"k"`
	V      Val    `json:"v"`
	Secret string `json:"secret,omitempty"`
	Null   bool   `json:"null,omitempty"`
}

type PortM struct {
	Port  int    `json:"port,omitempty"`
	Host  int    `json:"host,omitempty"`
	Proto string `json:"proto,omitempty"`
	Null  bool   `json:"null,omitempty"`
}

type ResObj struct {
	CPU    float64 `json:"cpu,omitempty"`
	Memory int64   `json:"memory,omitempty"`
}

type ResM struct {
	Limits   *ResObj `json:"limits,omitempty"`
	Requests *ResObj `json:"requests,omitempty"`
}

// MountM is a volume mount or a device.
type MountM struct {
	Name string `json:"name,omitempty"`
	Path string `json:"path,omitempty"`
	Null bool   `json:"null,omitempty"`
}

type StepM struct {
	Null       bool     `json:"null,omitempty"`
	Name       string   `json:"name,omitempty"`
	Image      string   `json:"image,omitempty"`
	Build      *BuildM  `json:"build,omitempty"`
	Push       *string  `json:"push,omitempty"`
	Command    []string `json:"command,omitempty"`
	Commands   []string `json:"commands,omitempty"`
	Entrypoint []string `json:"entrypoint,omitempty"`
	DependsOn  []string `json:"depends_on,omitempty"`
	DNS        []string `json:"dns,omitempty"`
	DNSSearch  []string `json:"dns_search,omitempty"`
	ExtraHosts []string `json:"extra_hosts,omitempty"`
	Detach     bool     `json:"detach,omitempty"`
	Privileged bool     `json:"privileged,omitempty"`
	Devices    []MountM `json:"devices,omitempty"`
	Env        []EnvM   `json:"env,omitempty"`
	Failure    string   `json:"failure,omitempty"`
	Network    string   `json:"network,omitempty"`
	Ports      []PortM  `json:"ports,omitempty"`
	Pull       string   `json:"pull,omitempty"`
	Resources  *ResM    `json:"resources,omitempty"`
	Settings   []SetM   `json:"settings,omitempty"`
	Shell      string   `json:"shell,omitempty"`
	User       string   `json:"user,omitempty"`
	Volumes    []MountM `json:"volumes,omitempty"`
	When       When     `json:"when,omitempty"`
	WorkingDir string   `json:"working_dir,omitempty"`
}

type VolM struct {
	Null   bool    `json:"null,omitempty"`
	Name   string  `json:"name,omitempty"`
	Temp   bool    `json:"temp,omitempty"`
	Medium string  `json:"medium,omitempty"`
	Size   int64   `json:"size,omitempty"`
	Host   *string `json:"host,omitempty"`
}

type PipeM struct {
	Version     string   `json:"version,omitempty"`
	Kind        string   `json:"kind,omitempty"`
	Type        string   `json:"type,omitempty"`
	Name        string   `json:"name,omitempty"`
	CloneOff    bool     `json:"clone_off,omitempty"`
	Depth       int      `json:"depth,omitempty"`
	SkipVerify  bool     `json:"skip_verify,omitempty"`
	Limit       int      `json:"limit,omitempty"`
	DependsOn   []string `json:"depends_on,omitempty"`
	Node        []KV     `json:"node,omitempty"`
	OS          string   `json:"os,omitempty"`
	Arch        string   `json:"arch,omitempty"`
	Variant     string   `json:"variant,omitempty"`
	OSVersion   string   `json:"os_version,omitempty"`
	PullSecrets []string `json:"pull_secrets,omitempty"`
	Services    []StepM  `json:"services,omitempty"`
	Steps       []StepM  `json:"steps,omitempty"`
	Trigger     When     `json:"trigger,omitempty"`
	Volumes     []VolM   `json:"volumes,omitempty"`
	Base        string   `json:"base,omitempty"`
	Path        string   `json:"path,omitempty"`
}

type CronM struct {
	Version, Kind, Type, Name string
	Schedule, Branch, Target  string
}

type SecretM struct {
	Version, Kind, Type, Name, Data string
	GetPath, GetName, GetKey        string
}

type RegistryM struct {
	Version, Kind, Type string
	Data                []KV
}

type SigM struct {
	Version, Kind, Hmac string
}

// ResourceM is exactly one of its fields.
type ResourceM struct {
	Pipe *PipeM     `json:"pipe,omitempty"`
	Cron *CronM     `json:"cron,omitempty"`
	Sec  *SecretM   `json:"sec,omitempty"`
	Reg  *RegistryM `json:"reg,omitempty"`
	Sig  *SigM      `json:"sig,omitempty"`
}

type ManifestM struct {
	R []ResourceM `json:"r"`
}

// ---- to the structures of the code under test ----

func (v Val) goval() interface{} {
	switch v.K {
	case "s":
		return v.S
	case "i":
		return v.I
	case "u":
		return v.U
	case "f":
		return parseFloat(v.F)
	case "b":
		return v.B
	case "l":
		out := make([]interface{}, len(v.L))
		for i := range v.L {
			out[i] = v.L[i].goval()
		}
		return out
	case "m":
		out := map[interface{}]interface{}{}
		for _, kv := range v.M {
			out[kv.K.goval()] = kv.V.goval()
		}
		return out
	}
	return nil
}

func kvMap(kvs []KV) map[string]string {
	if kvs == nil {
		return nil
	}
	m := map[string]string{}
	for _, kv := range kvs {
		m[kv.K] = kv.V
	}
	return m
}

func cp(s []string) []string { return append([]string(nil), s...) }

func (c Cond) drone() yaml.Condition {
	return yaml.Condition{Include: cp(c.Inc), Exclude: cp(c.Exc)}
}

func (w When) drone() yaml.Conditions {
	return yaml.Conditions{
		Action: w.Action.drone(), Cron: w.Cron.drone(), Ref: w.Ref.drone(), Repo: w.Repo.drone(), Instance: w.Instance.drone(),
		Target: w.Target.drone(), Event: w.Event.drone(), Branch: w.Branch.drone(), Status: w.Status.drone(), Paths: w.Paths.drone(),
		Matrix: kvMap(w.Matrix),
	}
}

// each calls f for each named condition, in alphabetical order.
func (w *When) each(f func(name string, c *Cond)) {
	f("action", &w.Action)
	f("branch", &w.Branch)
	f("cron", &w.Cron)
	f("event", &w.Event)
	f("instance", &w.Instance)
	f("paths", &w.Paths)
	f("ref", &w.Ref)
	f("repo", &w.Repo)
	f("status", &w.Status)
	f("target", &w.Target)
}

func (r *ResObj) drone() *yaml.ResourceObject {
	if r == nil {
		return nil
	}
	return &yaml.ResourceObject{CPU: r.CPU, Memory: yaml.BytesSize(r.Memory)}
}

func (s *StepM) drone() *yaml.Container {
	if s.Null {
		return nil
	}
	c := &yaml.Container{
		Name: s.Name, Image: s.Image, Command: cp(s.Command), Commands: cp(s.Commands), Entrypoint: cp(s.Entrypoint),
		DependsOn: cp(s.DependsOn), DNS: cp(s.DNS), DNSSearch: cp(s.DNSSearch), ExtraHosts: cp(s.ExtraHosts),
		Detach: s.Detach, Privileged: s.Privileged, Failure: s.Failure, Network: s.Network, Pull: s.Pull,
		Shell: s.Shell, User: s.User, WorkingDir: s.WorkingDir, When: s.When.drone(),
	}
	if b := s.Build; b != nil {
		c.Build = &yaml.Build{Args: kvMap(b.Args), CacheFrom: cp(b.CacheFrom), Context: b.Context, Dockerfile: b.Dockerfile, Image: b.Image, Labels: kvMap(b.Labels)}
	}
	if s.Push != nil {
		c.Push = &yaml.Push{Image: *s.Push}
	}
	for _, d := range s.Devices {
		if d.Null {
			c.Devices = append(c.Devices, nil)
			continue
		}
		c.Devices = append(c.Devices, &yaml.VolumeDevice{Name: d.Name, DevicePath: d.Path})
	}
	for _, d := range s.Volumes {
		if d.Null {
			c.Volumes = append(c.Volumes, nil)
			continue
		}
		c.Volumes = append(c.Volumes, &yaml.VolumeMount{Name: d.Name, MountPath: d.Path})
	}
	for _, p := range s.Ports {
		if p.Null {
			c.Ports = append(c.Ports, nil)
			continue
		}
		c.Ports = append(c.Ports, &yaml.Port{Port: p.Port, Host: p.Host, Protocol: p.Proto})
	}
	if s.Env != nil {
		c.Environment = map[string]*yaml.Variable{}
		for _, e := range s.Env {
			if e.Null {
				c.Environment[e.K] = nil
			} else {
				c.Environment[e.K] = &yaml.Variable{Value: e.V, Secret: e.Secret}
			}
		}
	}
	if s.Settings != nil {
		c.Settings = map[string]*yaml.Parameter{}
		for _, e := range s.Settings {
			switch {
			case e.Null:
				c.Settings[e.K] = nil
			case e.Secret != "":
				c.Settings[e.K] = &yaml.Parameter{Secret: e.Secret}
			default:
				c.Settings[e.K] = &yaml.Parameter{Value: e.V.goval()}
			}
		}
	}
	if r := s.Resources; r != nil {
		c.Resources = &yaml.Resources{Limits: r.Limits.drone(), Requests: r.Requests.drone()}
	}
	return c
}

func (p *PipeM) drone() *yaml.Pipeline {
	out := &yaml.Pipeline{
		Version: p.Version, Kind: p.Kind, Type: p.Type, Name: p.Name,
		Clone:       yaml.Clone{Disable: p.CloneOff, Depth: p.Depth, SkipVerify: p.SkipVerify},
		Concurrency: yaml.Concurrency{Limit: p.Limit},
		DependsOn:   cp(p.DependsOn), Node: kvMap(p.Node),
		Platform:    yaml.Platform{OS: p.OS, Arch: p.Arch, Variant: p.Variant, Version: p.OSVersion},
		PullSecrets: cp(p.PullSecrets), Trigger: p.Trigger.drone(),
		Workspace: yaml.Workspace{Base: p.Base, Path: p.Path},
	}
	for i := range p.Services {
		out.Services = append(out.Services, p.Services[i].drone())
	}
	for i := range p.Steps {
		out.Steps = append(out.Steps, p.Steps[i].drone())
	}
	for _, v := range p.Volumes {
		if v.Null {
			out.Volumes = append(out.Volumes, nil)
			continue
		}
		d := &yaml.Volume{Name: v.Name}
		if v.Temp {
			d.EmptyDir = &yaml.VolumeEmptyDir{Medium: v.Medium, SizeLimit: yaml.BytesSize(v.Size)}
		}
		if v.Host != nil {
			d.HostPath = &yaml.VolumeHostPath{Path: *v.Host}
		}
		out.Volumes = append(out.Volumes, d)
	}
	return out
}

func (r *ResourceM) drone() yaml.Resource {
	switch {
	case r.Pipe != nil:
		return r.Pipe.drone()
	case r.Cron != nil:
		c := r.Cron
		return &yaml.Cron{Version: c.Version, Kind: c.Kind, Type: c.Type, Name: c.Name,
			Spec: yaml.CronSpec{Schedule: c.Schedule, Branch: c.Branch, Deploy: yaml.CronDeployment{Target: c.Target}}}
	case r.Sec != nil:
		s := r.Sec
		return &yaml.Secret{Version: s.Version, Kind: s.Kind, Type: s.Type, Name: s.Name, Data: s.Data,
			Get: yaml.SecretGet{Path: s.GetPath, Name: s.GetName, Key: s.GetKey}}
	case r.Reg != nil:
		return &yaml.Registry{Version: r.Reg.Version, Kind: r.Reg.Kind, Type: r.Reg.Type, Data: kvMap(r.Reg.Data)}
	case r.Sig != nil:
		return &yaml.Signature{Version: r.Sig.Version, Kind: r.Sig.Kind, Hmac: r.Sig.Hmac}
	}
	panic("harness: empty resource")
}

func (m *ManifestM) drone() *yaml.Manifest {
	out := &yaml.Manifest{}
	for i := range m.R {
		out.Resources = append(out.Resources, m.R[i].drone())
	}
	return out
}

func (m *ManifestM) pipes() []*PipeM {
	var out []*PipeM
	for i := range m.R {
		if m.R[i].Pipe != nil {
			out = append(out, m.R[i].Pipe)
		}
	}
	return out
}
