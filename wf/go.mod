module verif.example/wf

go 1.22.0
