NA={}
c('C01',T,A)
c('C02',T,A)
c('C03',FLAT,A)
c('C04',FLAT,A)
c('C05',T,A)
c('C06',FLAT,A)
c('C07',FLAT,A)
c('C08',T,A)
c('C09',BFS,A)
c('C10',FLAT,A)
c('C11',FLAT,A)
c('C12',FLAT,A)
c('C23',T,A)
c('C24',T,A)
c('C25',T,A)
c('C26',T,A)
c('C13',T,A)
c('C14',T,A)
c('C15',BFS,A)
c('C16',BFS,A)
c('C17',T,A)
c('C18',FLAT,A)
c('C19',FLAT,A)
c('C20',FLAT,A)
c('C21',FLAT,A)
c('C22',FLAT,A)
c('C27',FLAT,A)
c('C28',FLAT,A)
