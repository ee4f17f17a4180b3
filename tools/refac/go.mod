module verif/refac

go 1.26
