# property -> (harness source, module parts it needs)
H={}
def reg(ids,src,groups):
    for i in ids.split(): H[i]=(src,groups)
reg('C01 C02 C03 C04 C05 C06 C09 C10','mat',['mat'])
reg('C07','tft',['mat'])
reg('C08','comp',['mat'])
reg('C11 C12 C13 C14','shellA',['mat','asm'])
reg('C15 C16 C17','shellB',['mat','asm'])
reg('C18','layout',['mat','asm'])
reg('C19','post',['mat','asm'])
reg('C20','shellC',['mat','asm'])
reg('C22','rep',['mat','asm'])
reg('C23','par',['mat','omp'])
reg('C21','dwr',['mat','asm','dwr'])
reg('C24','fault',['mat','asm','dwr'])
reg('C25','units',['mat','asm'])
