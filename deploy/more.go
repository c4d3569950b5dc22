package main

import (
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"github.com/blueprint-uservices/blueprint/plugins/jaeger"
	"github.com/blueprint-uservices/blueprint/plugins/kubernetes"
	"github.com/blueprint-uservices/blueprint/plugins/memcached"
	"github.com/blueprint-uservices/blueprint/plugins/mongodb"
	"github.com/blueprint-uservices/blueprint/plugins/mysql"
	"github.com/blueprint-uservices/blueprint/plugins/rabbitmq"
	"github.com/blueprint-uservices/blueprint/plugins/redis"
	"github.com/blueprint-uservices/blueprint/plugins/workflow"
	"verif.example/wf"
)

func applyMore(spec wiring.WiringSpec, o Op) bool {
	args := append([]string{o.S}, o.Deps...)
	switch o.Op {
	case "mongodb":
		mongodb.Container(spec, o.Name)
	case "redis":
		redis.Container(spec, o.Name)
	case "memcached":
		memcached.Container(spec, o.Name)
	case "mysql":
		mysql.Container(spec, o.Name)
	case "rabbitmq":
		rabbitmq.Container(spec, o.Name, o.S)
	case "jaeger":
		jaeger.Collector(spec, o.Name)
	case "pod":
		kubernetes.AddPodToApplication(spec, o.To, o.Name, o.S, o.Deps...)
	case "kube":
		kubernetes.NewApplication(spec, o.Name, o.S, o.Deps...)
	case "DbLeaf":
		workflow.Service[*wf.DbLeaf](spec, o.Name, args...)
	case "KvLeaf":
		workflow.Service[*wf.KvLeaf](spec, o.Name, args...)
	case "SqLeaf":
		workflow.Service[*wf.SqLeaf](spec, o.Name, args...)
	case "MqLeaf":
		workflow.Service[*wf.MqLeaf](spec, o.Name, args...)
	case "DbKvOne":
		workflow.Service[*wf.DbKvOne](spec, o.Name, args...)
	case "MqTwo":
		workflow.Service[*wf.MqTwo](spec, o.Name, args...)
	default:
		return false
	}
	return true
}
