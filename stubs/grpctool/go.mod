module verif.example/grpctool

go 1.22.0
