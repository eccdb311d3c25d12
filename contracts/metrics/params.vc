=== params
Snapshot<T>::counter counter
Snapshot<T>::gauge gauge
Reader<T>::counter counter
Reader<T>::gauge gauge
Writer<T>::gauge gauge value
Writer<T>::increment counter
