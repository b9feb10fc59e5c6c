FSPROPS={"C02","C04","C05","C06","C07","C08","C09","C12","C13","C27"}
CONC={"C10","C12","C13","C15","C16","C25","C28"}
FAULT={"C06","C08"}
NA={}
