From 6b558c229f3fb9098a2a785d82f52262a59c09e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 01/34] fix: two-channel elements act on the requested channels
 when the second channel is channel 0

_translate_channels_numbers_to_tensor_list swapped the wrong position when the
horizontal channel is 2 or higher and the vertical channel is 0, so for instance
half_wave_plate(2, 0) acted on channels 1 and 2.
---
 src/fock_state_circuit/nodes/nodelist/node_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/nodelist/node_list.py b/src/fock_state_circuit/nodes/nodelist/node_list.py
index aa59fdb..265c3f7 100644
--- a/src/fock_state_circuit/nodes/nodelist/node_list.py
+++ b/src/fock_state_circuit/nodes/nodelist/node_list.py
@@ -204,7 +204,9 @@ class NodeList():
                 tensor_list[0], tensor_list[1] = tensor_list[1], tensor_list[0] #swap
             else:
                 tensor_list[0], tensor_list[channel_horizontal] = tensor_list[channel_horizontal],  tensor_list[0]
-                tensor_list[1], tensor_list[channel_vertical] = tensor_list[channel_vertical],  tensor_list[1]  
+                # the first swap may have moved 'channel_vertical', so look up where it is now
+                position_vertical = tensor_list.index(channel_vertical)
+                tensor_list[1], tensor_list[position_vertical] = tensor_list[position_vertical],  tensor_list[1]  
         
         else:
             raise Exception('error creating tensor list, more than two channels provided')
-- 
2.43.0


From fe2af7dd240551ad5ea12d0c7be76a0b148e0362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 02/34] fix: basis listings no longer depend on earlier lookups

Iterating over, or listing, the component names or optical values of a circuit
returned a partially filled lookup table as soon as its size happened to match
the size of the basis: names in the order of earlier lookups, optical values
instead of names, or foreign entries remembered from membership tests. The
complete basis is now kept apart from the lookup tables, and only valid entries
are remembered.
---
 .../optical_values_component_names.py         | 71 +++++++++++--------
 1 file changed, 42 insertions(+), 29 deletions(-)

diff --git a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
index 2f18f81..dcf7963 100644
--- a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
+++ b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
@@ -210,6 +210,7 @@ class ComponentNames():
         self.string_format_in_state_as_word = "{:0"+str(self.digits_per_channel)+ "d}"
         self.tuple_of_strings = tuple(self.string_format_in_state_as_word.format(number) for number in range(self.length_of_fock_state))
         self.size_of_basis = self.length_of_fock_state**self.no_of_optical_channels
+        self._complete_basis = None
         return
 
     def __getitem__(self,component_name: str) -> list:
@@ -220,25 +221,37 @@ class ComponentNames():
             component_name_as_integer_tuple = tuple( int(component_name[a:a+self.digits_per_channel]) for a in range(0,len(component_name),self.digits_per_channel))
             if not self.channel_0_left_in_state_name:
                 component_name_as_integer_tuple = tuple(reversed(component_name_as_integer_tuple))
-            self.dict_of_valid_component_names.update({component_name: component_name_as_integer_tuple})
-            self.dict_of_optical_values.update({component_name_as_integer_tuple: component_name})
+            # only remember translations for names that are part of the basis
+            if self._is_canonical(component_name, component_name_as_integer_tuple):
+                self.dict_of_valid_component_names.update({component_name: component_name_as_integer_tuple})
+                self.dict_of_optical_values.update({component_name_as_integer_tuple: component_name})
             return list(component_name_as_integer_tuple)
+
+    def _is_canonical(self, component_name: str, optical_values: tuple) -> bool:
+        """ True if the name is the one used in the basis for these optical values """
+        if len(optical_values) != self.no_of_optical_channels or min(optical_values) < 0 or max(optical_values) >= self.length_of_fock_state:
+            return False
+        ordered_values = optical_values if self.channel_0_left_in_state_name else reversed(optical_values)
+        return component_name == ''.join([self.tuple_of_strings[number] for number in ordered_values])
         
     def _values_from_index(self, index: int) -> list:
         return [(index//(self.length_of_fock_state**c))%self.length_of_fock_state for c in range(self.no_of_optical_channels)]
         
     def __iter__(self):
         """ Iterator for optical component names as a string"""
-        if len(self.dict_of_valid_component_names) == self.size_of_basis:
-            return iter(self.dict_of_optical_values)
-
-        self.list_of_fock_states = [self._values_from_index(n)  for n in range(self.length_of_fock_state**self.no_of_optical_channels)]
-        if self.channel_0_left_in_state_name == True:
-            self.dict_of_valid_component_names = {''.join([self.tuple_of_strings[number] for number in optical_state]):optical_state for optical_state in self.list_of_fock_states}
-        else: #self.state_least_significant_digit_left == False:
-            self.dict_of_valid_component_names = {''.join([self.tuple_of_strings[number] for number in optical_state[::-1]]):optical_state for optical_state in self.list_of_fock_states}       
+        return iter(self._basis())
 
-        return iter(self.dict_of_valid_component_names)
+    def _basis(self) -> dict:
+        """ Complete basis in standard order. The tables used for looking up single names are filled in
+            arbitrary order and cannot be used to list the basis.
+        """
+        if self._complete_basis is None:
+            list_of_fock_states = [self._values_from_index(n)  for n in range(self.length_of_fock_state**self.no_of_optical_channels)]
+            if self.channel_0_left_in_state_name == True:
+                self._complete_basis = {''.join([self.tuple_of_strings[number] for number in optical_state]):tuple(optical_state) for optical_state in list_of_fock_states}
+            else: #self.state_least_significant_digit_left == False:
+                self._complete_basis = {''.join([self.tuple_of_strings[number] for number in optical_state[::-1]]):tuple(optical_state) for optical_state in list_of_fock_states}
+        return self._complete_basis
     
     def __contains__(self, key: str) -> bool:
         """ True if the componet name (as string) represent a valid optical state."""
@@ -251,18 +264,15 @@ class ComponentNames():
 
     def keys(self):
         """ Keys are component names as string, Values are the optical values in list format."""
-        self.__iter__()
-        return self.dict_of_valid_component_names.keys()
+        return self._basis().keys()
 
     def items(self):
         """ Keys are component names as string, Values are the optical values in list format."""
-        self.__iter__()
-        return self.dict_of_valid_component_names.items()
+        return {name: list(optical_values) for name, optical_values in self._basis().items()}.items()
 
     def values(self):
         """ Keys are component names as string, Values are the optical values in list format."""
-        self.__iter__()
-        return self.dict_of_valid_component_names.values()
+        return {name: list(optical_values) for name, optical_values in self._basis().items()}.values()
     
     def index_of(self,key: str) -> int:
         """ Return the index of the key, which is interpreted as a component name in string form. The index is in
@@ -393,6 +403,7 @@ class OpticalValues():
         self.string_format_in_state_as_word = component_names.string_format_in_state_as_word
         self.tuple_of_strings = component_names.tuple_of_strings
         self.size_of_basis = component_names.size_of_basis
+        self._complete_basis = None
         return
     
     def __getitem__(self,optical_values: Union[list, tuple]) -> str:
@@ -404,15 +415,20 @@ class OpticalValues():
                 component_name = ''.join([self.tuple_of_strings[number] for number in optical_values])                                                                 
             else:
                 component_name = ''.join([self.tuple_of_strings[number] for number in reversed(optical_values)])   
-            self.dict_of_optical_values.update({optical_values: component_name})
-            self.dict_of_valid_component_names.update({component_name: optical_values})
+            # only remember translations for optical values that are part of the basis
+            if optical_values in self:
+                self.dict_of_optical_values.update({optical_values: component_name})
+                self.dict_of_valid_component_names.update({component_name: optical_values})
             return component_name
     
     def __iter__(self):
-        if len(self.dict_of_optical_values) == self.size_of_basis:
-            return iter(self.dict_of_optical_values)
-        self.dict_of_optical_values = {tuple(v):k for k,v in self.component_names.items()}      
-        return iter(self.dict_of_optical_values)
+        return iter(self._basis())
+
+    def _basis(self) -> dict:
+        """ Complete basis in standard order """
+        if self._complete_basis is None:
+            self._complete_basis = {tuple(v):k for k,v in self.component_names.items()}
+        return self._complete_basis
     
     def __len__(self) -> int:
         return self.size_of_basis
@@ -421,16 +437,13 @@ class OpticalValues():
         return (isinstance(values, tuple) or isinstance(values, list)) and len(values) == self.no_of_optical_channels and min(values) >= 0 and max(values) < self.length_of_fock_state
 
     def keys(self):
-        self.__iter__()
-        return self.dict_of_optical_values.keys()
+        return self._basis().keys()
 
     def items(self):
-        self.__iter__()
-        return self.dict_of_optical_values.items()
+        return self._basis().items()
 
     def values(self):
-        self.__iter__()
-        return self.dict_of_optical_values.values()    
+        return self._basis().values()
     
     def index_of(self,values: Union[list,tuple]) -> int:
         return sum([value*(self.length_of_fock_state**index) for index,value in enumerate(values)])
-- 
2.43.0


From 87a1da0f422a4145c85358d5bc5911c502d0c9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 03/34] fix: evaluating a circuit leaves the input collection
 unchanged and shares nothing with it

A copy of a state no longer depends on later changes of the collection it was taken from.
---
 src/fock_state_circuit/circuit.py | 27 ++++++++++++++++-----------
 src/fock_state_circuit/state.py   |  9 ++++++---
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 3126ba1..be0a488 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -304,10 +304,11 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         if nodes_to_be_evaluated == ['all']:
             nodes_to_be_evaluated = list(range(len(self.node_list)))
             if len(self.node_list) == 0: # case for empty circuit
-                return collection_of_states_input
-        # if nodes_to_be_evaluated is empty return the input state. This was last recursion loop
+                return CollectionOfStates(self) if collection_of_states_input is None else collection_of_states_input.copy()
+        # if nodes_to_be_evaluated is empty return the input state. This was last recursion loop. Return a copy, so the result 
+        # shares nothing with the collection given by the caller
         elif len(nodes_to_be_evaluated) == 0:
-            return collection_of_states_input
+            return CollectionOfStates(self) if collection_of_states_input is None else collection_of_states_input.copy()
         # raise exception if the values in nodes_to_be_evaluated do not match with the length of self.node_list
         else:
             for node_index in nodes_to_be_evaluated:
@@ -384,17 +385,21 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         # case where next node is of type 'classical' *
         #**********************************************
         elif self.node_list[current_node_index].get('node_type') == 'classical':          
-            for state in collection_of_states_input:
+            # work on a copy, the collection given as input should not change
+            collection_of_states_output = collection_of_states_input.copy()
+            for state in collection_of_states_output:
                 # read the function from the node_list
                 classical_function = self.node_list[current_node_index].get('function')
 
                 # apply the function to the classical channels for every state in the collection
-                state.classical_channel_values = classical_function(
+                new_values = classical_function(
                     state.classical_channel_values,
                     self.node_list[current_node_index]['new_input_values'],
                     self.node_list[current_node_index]['affected_channels'])
+                # the function can return the same list for every state, but every state needs values of its own
+                state.classical_channel_values = new_values.copy() if isinstance(new_values, list) else new_values
                 
-            return self.evaluate_circuit(collection_of_states_input = collection_of_states_input, nodes_to_be_evaluated = remaining_nodes)
+            return self.evaluate_circuit(collection_of_states_input = collection_of_states_output, nodes_to_be_evaluated = remaining_nodes)
   
         #**********************************************************************
         # case where next node is of type 'measurement'  *
@@ -411,7 +416,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
 
                 # perform the measurement
                 # the function perform_measurement_photon_resolved is part of the module 'spectral_nodes.py'
-                collection_of_states_output = self.perform_measurement_photon_resolved(  collection_of_states=collection_of_states_input, 
+                collection_of_states_output = self.perform_measurement_photon_resolved(  collection_of_states=collection_of_states_input.copy(), 
                                                                                     optical_channels_to_measure=optical_channels_to_be_read, 
                                                                                     classical_channels_to_write_to=classical_channels_to_be_written,
                                                                                     list_of_projections = list_of_projections)
@@ -422,7 +427,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                 optical_channels_to_be_read = self.node_list[current_node_index].get('optical_channels_to_be_read')
                 classical_channels_to_be_written = self.node_list[current_node_index].get('classical_channels_to_be_written')  
                 # The function perform_measurement_pr_correlation is part of the module superquantum_nodes.py
-                collection_of_states_output = self.perform_measurement_pr_correlation(  collection_of_states=collection_of_states_input, 
+                collection_of_states_output = self.perform_measurement_pr_correlation(  collection_of_states=collection_of_states_input.copy(), 
                                                                     optical_channels_to_measure=optical_channels_to_be_read, 
                                                                     classical_channels_to_write_to=classical_channels_to_be_written)
                 return self.evaluate_circuit(collection_of_states_input = collection_of_states_output, nodes_to_be_evaluated = remaining_nodes)
@@ -520,7 +525,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
             generic_function = self.node_list[current_node_index].get('generic_function')
             generic_function_parameters = self.node_list[current_node_index].get('generic_function_parameters')
             
-            collection_of_states_output = generic_function(collection_of_states_input,generic_function_parameters)
+            collection_of_states_output = generic_function(collection_of_states_input.copy(),generic_function_parameters)
          
             return self.evaluate_circuit(collection_of_states_input = collection_of_states_output, nodes_to_be_evaluated = remaining_nodes)
 
@@ -717,8 +722,8 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         if collection_of_states is None:
             collection_of_states = CollectionOfStates(fock_state_circuit=self)
         else:
-            collection_of_states._fock_state_circuit = self
-            collection_of_states = collection_of_states.copy()
+            # work on a copy, the collection given as input should not change
+            collection_of_states = CollectionOfStates(self, {identifier: state.copy() for identifier, state in collection_of_states.items()})
         if self._use_full_fock_matrix == True:
             # if 'use_full_fock_matrix' is set to 'True' we always use the complete matrix. There is no need to group
             # states by photon number.
diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 9afb1d9..a4ac54f 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -429,15 +429,18 @@ class State():
                             'cumulative_probability' : self.state['cumulative_probability'],
                             'optical_components' : { name:amp_prob.copy() for name, amp_prob in self.state['optical_components'].items() }, 
                             'classical_channel_values' : self.state['classical_channel_values'].copy(),
-                            'measurement_results' : [{k:v for k,v in m_result.items()} for m_result in self.state['measurement_results']]
+                            'measurement_results' : copy.deepcopy(self.state['measurement_results'])
                             }
-        auxiliary_information = self.state.get('auxiliary_information', None)
 
         auxiliary_information = self.state.get('auxiliary_information', {})
         if auxiliary_information:
             new_state_as_a_dict.update({'auxiliary_information' : copy.deepcopy(self.state['auxiliary_information'])})
 
-        return State(self._collection_of_states, new_state_as_a_dict )
+        # take over the configuration of this state and not of the collection it belongs to. The collection can have been reduced,
+        # extended or adjusted after this state was taken out of it
+        new_state = copy.copy(self)
+        new_state.state = new_state_as_a_dict
+        return new_state
     
         # This is an earlier implementation which looks slower but we measure very marginal performance differences.
         # new_initial_state = "{:s}".format(self.state['initial_state'])
-- 
2.43.0


From 6741fc0d961d647c5a9932057df8c02db65c53fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 04/34] fix: copied states belong to the copied collection and
 keep the print setting

---
 src/fock_state_circuit/collection_of_states.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 4e52b8f..eaab98d 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -602,16 +602,17 @@ class CollectionOfStates(Plot):
         Returns:
             CollectionOfStates: new collection of states with identical values and parameters as the original
         """        
-        if empty_template:
-            return CollectionOfStates(self._fock_state_circuit, dict([]))
-        else:
-            new_selection_of_states = dict([])
+        new_collection = CollectionOfStates(self._fock_state_circuit, dict([]))
+        new_collection.print_only_last_measurement = self.print_only_last_measurement
+        if not empty_template:
             for identifier,state in self._collection_of_states.items():
                 new_state_identifier = "{:s}".format(identifier)
                 new_state = state.copy()
-                new_selection_of_states.update({new_state_identifier : new_state})
+                # the copied state belongs to the new collection
+                new_state._collection_of_states = new_collection
+                new_collection._collection_of_states.update({new_state_identifier : new_state})
 
-            return CollectionOfStates(self._fock_state_circuit, new_selection_of_states)
+        return new_collection
               
     
     def generate_allowed_components_names_as_list_of_strings(self) -> list:
-- 
2.43.0


From e37d9ffbc0e494433ce9c85a7af4d4d10672704c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 05/34] fix: measurement records hold the classical values
 right after the measurement, one record per measurement

---
 src/fock_state_circuit/circuit.py                           | 6 ++----
 .../interference_group.py                                   | 6 ++++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index be0a488..7054afd 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -686,10 +686,8 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
             for i,n in enumerate(classical_channels_to_write_to):
                 new_state.classical_channel_values[n] = outcome[i]
             # 3. the new state's measurement results need to be updated with 
-            try:
-                new_state.measurement_results.append({'measurement_results':new_state.classical_channel_values, 'probability': tot_prob})   
-            except:
-                new_state.measurement_results = [{'measurement_results':new_state.classical_channel_values, 'probability': tot_prob}]
+            # the measurement results so far and the result of this measurement. The record needs to hold the values at this moment
+            new_state.measurement_results.append({'measurement_results':new_state.classical_channel_values.copy(), 'probability': tot_prob})
             new_state.optical_components = {self._dict_of_optical_values[tuple(name[0])]:{'amplitude':new_amplitude,'probability': new_probability} for name, new_amplitude, new_probability in zip(list_of_outcomes,new_amps, new_probs)}
             # 4. Other aspects like initial_state and auxiliary_information remain unchanged
             # add the new state to the collection
diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index 22f8fc8..81710fd 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -968,7 +968,8 @@ class InterferenceGroup():
                 for index, value in enumerate(values_to_measure):
                     classical_channel = classical_channels_to_write_to[index]
                     state.classical_channel_values[classical_channel] = value
-                    state.measurement_results.append({'measurement_results':state.classical_channel_values, 'probability': probability_for_partial_outcome})  
+                # one record per measurement, holding the values at this moment
+                state.measurement_results.append({'measurement_results':state.classical_channel_values.copy(), 'probability': probability_for_partial_outcome})  
             # add the group for this partial outcome to the list which will be returned
             list_of_groups.append(new_group)
 
@@ -1056,7 +1057,8 @@ class InterferenceGroup():
                 for index, value in enumerate(values_for_this_outcome[outcome]):
                     classical_channel = classical_channels_to_write_to[index]
                     state.classical_channel_values[classical_channel] = value
-                    state.measurement_results.append({'measurement_results':state.classical_channel_values, 'probability': probability})  
+                # one record per measurement, holding the values at this moment
+                state.measurement_results.append({'measurement_results':state.classical_channel_values.copy(), 'probability': probability})  
             # add the group for this partial outcome to the list which will be returned
             list_of_groups.append(new_group)
 
-- 
2.43.0


From 223fa9bf4af31993235873b5bfa4168dc481f7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 06/34] fix: nodes selected in any order are all evaluated

---
 src/fock_state_circuit/circuit.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 7054afd..2620e93 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -329,16 +329,9 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                     break
                 else:
                     optical_nodes_list.append(node_index)
-            if max(optical_nodes_list) >= max(nodes_to_be_evaluated):
-                remaining_nodes = []
-            else:
-                remaining_nodes = nodes_to_be_evaluated[len(optical_nodes_list):]
+            remaining_nodes = nodes_to_be_evaluated[len(optical_nodes_list):]
         else:
-            current_node_index = nodes_to_be_evaluated[0]
-            if current_node_index >= max(nodes_to_be_evaluated):
-                remaining_nodes = []
-            else:
-                remaining_nodes = nodes_to_be_evaluated[1:]
+            remaining_nodes = nodes_to_be_evaluated[1:]
 
         #****************************************************
         #                                                   *
-- 
2.43.0


From d88331f29532545026e57ca7806ef2ed788c27cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 07/34] fix: c_shift and channel_coupling apply the channel
 pairs in the order given

---
 src/fock_state_circuit/nodes/custom_nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index f97fafb..1bc0c6c 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -213,7 +213,7 @@ class CustomNodes(NodeList):
                 coupling_matrix = coupling_matrix_one_target_control_combination
                 this_is_first_round = False
             else:
-                coupling_matrix  = np.matmul(coupling_matrix, coupling_matrix_one_target_control_combination)
+                coupling_matrix  = np.matmul(coupling_matrix_one_target_control_combination, coupling_matrix)
 
         if node_info == None: node_info = {}
         node_info = {
@@ -440,7 +440,7 @@ class CustomNodes(NodeList):
                 coupling_matrix = coupling_matrix_one_target_control_combination
                 this_is_first_round = False
             else:
-                coupling_matrix  = np.matmul(coupling_matrix, coupling_matrix_one_target_control_combination)
+                coupling_matrix  = np.matmul(coupling_matrix_one_target_control_combination, coupling_matrix)
 
         self.custom_fock_state_node(custom_fock_matrix = coupling_matrix, node_type='custom fock matrix', node_info = node_info)
 
@@ -526,7 +526,7 @@ class CustomNodes(NodeList):
                         coupling_matrix_one_target_control_combintation[output_index][input_index] = np.sqrt(np.cdouble((1-coupling_strength))*(1 + 0*1j))
                     else:
                         coupling_matrix_one_target_control_combintation[output_index][input_index] = np.cdouble(0)
-            coupling_matrix  = np.matmul(coupling_matrix, coupling_matrix_one_target_control_combintation)
+            coupling_matrix  = np.matmul(coupling_matrix_one_target_control_combintation, coupling_matrix)
 
         self.custom_fock_state_node(custom_fock_matrix = coupling_matrix, node_type='custom fock matrix', node_info = node_info)
 
-- 
2.43.0


From 7d6cfdb3d20704ae78b2a7f432ae18c188d90146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 08/34] fix: refuse channels that do not exist in shifts,
 couplings, controlled elements and classical settings

---
 src/fock_state_circuit/nodes/classical_nodes.py      |  2 +-
 src/fock_state_circuit/nodes/controlled_nodes.py     |  8 ++++----
 src/fock_state_circuit/nodes/custom_nodes.py         | 12 ++++++------
 .../nodes/quantum_operator_nodes.py                  |  4 ++--
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/fock_state_circuit/nodes/classical_nodes.py b/src/fock_state_circuit/nodes/classical_nodes.py
index 5684acb..ec322c5 100644
--- a/src/fock_state_circuit/nodes/classical_nodes.py
+++ b/src/fock_state_circuit/nodes/classical_nodes.py
@@ -109,7 +109,7 @@ class ClassicalNodes(NodeList):
         """
         conditions = [
             len(list_of_values_for_classical_channels) != len(list_of_classical_channel_numbers),
-            max(list_of_classical_channel_numbers) >= self._no_of_classical_channels
+            any([not 0 <= channel < self._no_of_classical_channels for channel in list_of_classical_channel_numbers])
             ]
         if any(conditions):
             raise Exception('Incorrect input in function set_classical_channels')
diff --git a/src/fock_state_circuit/nodes/controlled_nodes.py b/src/fock_state_circuit/nodes/controlled_nodes.py
index 8372f76..e85808f 100644
--- a/src/fock_state_circuit/nodes/controlled_nodes.py
+++ b/src/fock_state_circuit/nodes/controlled_nodes.py
@@ -54,9 +54,9 @@ class ControlledNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if classical_channel_for_phase_shift > self._no_of_classical_channels:
+        if not 0 <= classical_channel_for_phase_shift < self._no_of_classical_channels:
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if optical_channel_to_shift > self._no_of_optical_channels:
+        if not 0 <= optical_channel_to_shift < self._no_of_optical_channels:
             raise Exception('the optical channel is a not defined channel in the circuit')
 
         if node_info == None: node_info = {}
@@ -129,9 +129,9 @@ class ControlledNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) > self._no_of_classical_channels:
+        if not all([0 <= channel < self._no_of_classical_channels for channel in (classical_channel_for_phase_shift, classical_channel_for_orientation)]):
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if max(optical_channel_horizontal, optical_channel_vertical) > self._no_of_optical_channels:
+        if not all([0 <= channel < self._no_of_optical_channels for channel in (optical_channel_horizontal, optical_channel_vertical)]):
             raise Exception('the optical channel is a not defined channel in the circuit')
         
         if node_info == None: node_info = {}
diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index 1bc0c6c..5af1449 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -189,12 +189,12 @@ class CustomNodes(NodeList):
         error = False
         if len(shift_per_channel) == len(target_channels):
             for shift, target in zip(shift_per_channel, target_channels):
-                if min(shift, target) < 0 or target > self._no_of_optical_channels:
+                if target < 0 or target >= self._no_of_optical_channels:
                     error = True
         else:
             error = True
         if error:
-            Exception('Error in channel input for function FockStateCircuit.shift')
+            raise Exception('Error in channel input for function FockStateCircuit.shift')
 
         this_is_first_round = True  
         # for each channel create a transition matrix
@@ -412,14 +412,14 @@ class CustomNodes(NodeList):
         error = False
         if len(control_channels) == len(target_channels):
             for control, target in zip(control_channels,target_channels):
-                if min(control, target) < 0 or max(control, target) > self._no_of_optical_channels:
+                if min(control, target) < 0 or max(control, target) >= self._no_of_optical_channels:
                     error = True
                 if control == target:
                     error = True
         else:
             error = True
         if error:
-            Exception('Error in channel input for function FockStateCircuit.c_shift')
+            raise Exception('Error in channel input for function FockStateCircuit.c_shift')
             
         
         this_is_first_round = True  
@@ -491,14 +491,14 @@ class CustomNodes(NodeList):
         error = False
         if len(control_channels) == len(target_channels):
             for control, target in zip(control_channels,target_channels):
-                if min(control, target) < 0 or max(control, target) > self._no_of_optical_channels:
+                if min(control, target) < 0 or max(control, target) >= self._no_of_optical_channels:
                     error = True
                 if control == target:
                     error = True
         else:
             error = True
         if error:
-            Exception('Error in channel input for function FockStateCircuit.channel_coupling')
+            raise Exception('Error in channel input for function FockStateCircuit.channel_coupling')
             
         
         # the coupling matrix is pre-filled as identity matrix
diff --git a/src/fock_state_circuit/nodes/quantum_operator_nodes.py b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
index f7b6fd1..c57f336 100644
--- a/src/fock_state_circuit/nodes/quantum_operator_nodes.py
+++ b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
@@ -145,9 +145,9 @@ class QuantumOperatorNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) > self._no_of_classical_channels:
+        if not all([0 <= channel < self._no_of_classical_channels for channel in (classical_channel_for_phase_shift, classical_channel_for_orientation)]):
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if max(optical_channel_horizontal, optical_channel_vertical) > self._no_of_optical_channels:
+        if not all([0 <= channel < self._no_of_optical_channels for channel in (optical_channel_horizontal, optical_channel_vertical)]):
             raise Exception('the optical channel is a not defined channel in the circuit')
         
         if node_info == None: node_info = {}
-- 
2.43.0


From 141438d604513b96b571fcc333260f5733aa0a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 09/34] fix: a refused beamsplitter leaves no half beamsplitter
 in the circuit

---
 src/fock_state_circuit/nodes/optical_nodes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fock_state_circuit/nodes/optical_nodes.py b/src/fock_state_circuit/nodes/optical_nodes.py
index 59dc40b..3e8bf34 100644
--- a/src/fock_state_circuit/nodes/optical_nodes.py
+++ b/src/fock_state_circuit/nodes/optical_nodes.py
@@ -292,6 +292,9 @@ class OpticalNodes(NodeList):
                 }|node_info
         if self._no_of_optical_channels < 4:
             raise Exception('For beamsplitter 4 channels are needed in the circuit')
+        # check both pairs of channels first, so no half beamsplitter is left in the circuit if one of them is refused
+        for index in [0,1]:
+            self._translate_channels_numbers_to_tensor_list([input_channels_a[index], input_channels_b[index]])
         self.mix_generic_refl_transm(
             first_channel = input_channels_a[0], 
             second_channel = input_channels_b[0], 
@@ -745,6 +748,9 @@ class OpticalNodes(NodeList):
                 }|node_info
         if self._no_of_optical_channels < 4:
             raise Exception('For beamsplitter 4 channels are needed in the circuit')
+        # check both pairs of channels first, so no half beamsplitter is left in the circuit if one of them is refused
+        for index in [0,1]:
+            self._translate_channels_numbers_to_tensor_list([input_channels_a[index], input_channels_b[index]])
         self.mix_50_50(first_channel = input_channels_a[0], second_channel = input_channels_b[0], node_info = node_info_0)
         self.mix_50_50(first_channel = input_channels_a[1], second_channel = input_channels_b[1], node_info = node_info_1)
         return
-- 
2.43.0


From a319d25873d833b251a1773c2c542283e8fb112a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 10/34] fix: a statistical mixture keeps all its states when
 identifiers collide

---
 src/fock_state_circuit/collection_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index eaab98d..5613394 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -461,7 +461,7 @@ class CollectionOfStates(Plot):
         for state, weight in list_of_tuples_state_weight:
             # make random identifier which is not yet used in self._collection_of_states.keys()
             identifier = 'identifier_' + alphabet[random.randint(0,len(alphabet)-1)]
-            while identifier in self._collection_of_states.keys():
+            while identifier in mixture.keys():
                 identifier += alphabet[random.randint(0,len(alphabet)-1)]
 
             # for initial state use initial state name in first state and copy to all in the mixture
-- 
2.43.0


From 0e862ed94a9e2acd7a87898a33b8ba6f9981b487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 11/34] fix: a failing or interrupted measurement is not turned
 into a rounded probability

---
 src/fock_state_circuit/circuit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 2620e93..e8504b8 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -671,10 +671,10 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
             # create a new state as collapsed state for a specific measurement result
             new_state= state.copy()
             # 1. the new state has a cumulative probability that is multiplied with the probability to detect this specific outcome
-            try:
-                new_state.cumulative_probability *= tot_prob
-            except:
-                new_state.cumulative_probability = np.round(new_state.cumulative_probability*tot_prob,3)
+            new_probability = new_state.cumulative_probability*tot_prob
+            if new_probability > 1: # limited numerical precision
+                new_probability = np.round(new_probability,3)
+            new_state.cumulative_probability = new_probability
             # 2. the new state should have classical channel values modified representing the measurement result
             for i,n in enumerate(classical_channels_to_write_to):
                 new_state.classical_channel_values[n] = outcome[i]
-- 
2.43.0


From a4332d7f0050b0a1ad71883015996065912b04dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 12/34] fix: reducing, extending and adjusting a collection
 keep its states independent and its threshold

---
 .../collection_of_states.py                   | 39 ++++++++++++-------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 5613394..c8810f3 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -778,7 +778,8 @@ class CollectionOfStates(Plot):
         updated_circuit = NodeList(length_of_fock_state = self._length_of_fock_state, 
                                 no_of_optical_channels = len(optical_channels_to_keep), 
                                 no_of_classical_channels= len(classical_channels_to_keep),
-                                channel_0_left_in_state_name = self._channel_0_left_in_state_name
+                                channel_0_left_in_state_name = self._channel_0_left_in_state_name,
+                                threshold_probability_for_setting_to_zero = self._threshold_probability_for_setting_to_zero
                                 )
         
         new_collection_of_states = CollectionOfStates(fock_state_circuit=updated_circuit)
@@ -820,25 +821,27 @@ class CollectionOfStates(Plot):
                     new_amplitude = new_optical_components[component]['amplitude'] * scale_factor
                     new_optical_components[component] = {'amplitude': new_amplitude, 'probability': np.abs(new_amplitude)**2}
                 
-                new_classical_values = [old_state['classical_channel_values'][index] for index in classical_channels_to_keep]
+                # every new state gets information of its own, it is not shared with the old state or the other new states
+                copied_state = old_state.copy()
+                new_classical_values = [copied_state['classical_channel_values'][index] for index in classical_channels_to_keep]
                 new_state_as_a_dict = {   'initial_state' : old_state['initial_state'],
                     'cumulative_probability' :  old_state['cumulative_probability'] *cumulative_probability,
                     'optical_components' : new_optical_components, 
                     'classical_channel_values' : new_classical_values,
-                    'measurement_results' : old_state['measurement_results'],
-                    'auxiliary_information' : old_state['auxiliary_information']
+                    'measurement_results' : copied_state['measurement_results'],
+                    'auxiliary_information' : copied_state['auxiliary_information']
                     }
                 new_state = State(collection_of_states=new_collection_of_states, input_state_as_a_dict=new_state_as_a_dict)
                 new_collection_of_states.add_state(state=new_state,identifier=identifier+traced_out_value)
 
 
-            #self = new_collection_of_states.copy()
-            self._fock_state_circuit = new_collection_of_states._fock_state_circuit
-            self._collection_of_states = new_collection_of_states.collection_as_dict()
-            self._no_of_classical_channels = new_collection_of_states._no_of_classical_channels
-            self._no_of_optical_channels = new_collection_of_states._no_of_optical_channels
-            self._dict_of_valid_component_names = new_collection_of_states._dict_of_valid_component_names
-            self._dict_of_optical_values = new_collection_of_states._dict_of_optical_values
+        #self = new_collection_of_states.copy()
+        self._fock_state_circuit = new_collection_of_states._fock_state_circuit
+        self._collection_of_states = new_collection_of_states.collection_as_dict()
+        self._no_of_classical_channels = new_collection_of_states._no_of_classical_channels
+        self._no_of_optical_channels = new_collection_of_states._no_of_optical_channels
+        self._dict_of_valid_component_names = new_collection_of_states._dict_of_valid_component_names
+        self._dict_of_optical_values = new_collection_of_states._dict_of_optical_values
 
         return 
     
@@ -867,7 +870,8 @@ class CollectionOfStates(Plot):
         updated_circuit = NodeList(length_of_fock_state = new_length_of_fock_state, 
                                 no_of_optical_channels = self._no_of_optical_channels, 
                                 no_of_classical_channels= self._no_of_classical_channels,
-                                channel_0_left_in_state_name = self._channel_0_left_in_state_name
+                                channel_0_left_in_state_name = self._channel_0_left_in_state_name,
+                                threshold_probability_for_setting_to_zero = self._threshold_probability_for_setting_to_zero
                                 )
         new_collection_of_states = CollectionOfStates(fock_state_circuit= updated_circuit )
         new_collection_of_states.clear()
@@ -875,7 +879,9 @@ class CollectionOfStates(Plot):
         new_collection_of_states._threshold_probability_for_setting_to_zero = self._threshold_probability_for_setting_to_zero
         new_collection_of_states.print_only_last_measurement = self.print_only_last_measurement
         
-        for identifier, state in self._collection_of_states.items():
+        for identifier, old_state in self._collection_of_states.items():
+            # the new state gets information of its own, it is not shared with the old state
+            state = old_state.copy()
             new_optical_components = dict([])
             for name, amp_prob in state.optical_components.items():
                 values = self._dict_of_valid_component_names[name]
@@ -1007,7 +1013,8 @@ class CollectionOfStates(Plot):
         updated_circuit  = NodeList(length_of_fock_state = self._length_of_fock_state, 
                         no_of_optical_channels = self._no_of_optical_channels+extra_optical_channels,
                         no_of_classical_channels= self._no_of_classical_channels+extra_classical_channels,
-                        channel_0_left_in_state_name = self._channel_0_left_in_state_name
+                        channel_0_left_in_state_name = self._channel_0_left_in_state_name,
+                        threshold_probability_for_setting_to_zero = self._threshold_probability_for_setting_to_zero
                         )
         new_collection_of_states = CollectionOfStates(fock_state_circuit= updated_circuit )
         new_collection_of_states.clear()
@@ -1030,7 +1037,9 @@ class CollectionOfStates(Plot):
 
         # for each existing state create a statistical mixture for possible values in new channels
         for probability, values in extra_channel_values.values():
-            for old_state in self._collection_of_states.values():
+            for original_state in self._collection_of_states.values():
+                # every new state gets information of its own, it is not shared with the old state or the other new states
+                old_state = original_state.copy()
                 optical_components = old_state['optical_components']
                 new_optical_components = dict([])
                 for component_name, amplitude_probability in optical_components.items():
-- 
2.43.0


From e04a84c69116242e7b00c85a4a86a2915e4fb5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 13/34] fix: plotting a collection with photon resolution
 leaves the collection unchanged

---
 src/fock_state_circuit/visualization/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/visualization/plot.py b/src/fock_state_circuit/visualization/plot.py
index ea63572..30db002 100644
--- a/src/fock_state_circuit/visualization/plot.py
+++ b/src/fock_state_circuit/visualization/plot.py
@@ -167,7 +167,7 @@ class Plot():
         resulting_collection.clear()
 
         # step 1: Same as above for full outcomes
-        coll_of_cols = CollectionOfStateColumns(collection_of_states=self)
+        coll_of_cols = CollectionOfStateColumns(collection_of_states=self.copy())
         coll_of_cols.split()
         
         # step 2: Per group consolidate in new state without photon resolution
-- 
2.43.0


From e1c642bc775d9ecda0741dfc24b829d4377624cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 14/34] fix: drawing and printing leave circuits and their
 names unchanged, printing works for circuits without a name

---
 src/fock_state_circuit/circuit.py            |  2 +-
 src/fock_state_circuit/visualization/draw.py | 22 ++++++++++----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index e8504b8..7be1fd6 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -264,7 +264,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         Returns:
             str: string describing the circuit
         """ 
-        text = 'FockStateCircuit name: ' + self._circuit_name + '\n'
+        text = 'FockStateCircuit name: ' + str(self._circuit_name) + '\n'
         text += 'Optical Channels: ' + str(self._no_of_optical_channels) + '\n'
         text += 'Classical Channels: ' + str(self._no_of_classical_channels) + '\n'
         text += 'Length of Fock state: ' + str(self._length_of_fock_state) + '\n'
diff --git a/src/fock_state_circuit/visualization/draw.py b/src/fock_state_circuit/visualization/draw.py
index 6b9456f..8f3d509 100644
--- a/src/fock_state_circuit/visualization/draw.py
+++ b/src/fock_state_circuit/visualization/draw.py
@@ -143,14 +143,13 @@ class Draw():
         
         for node_index, node in enumerate(self.node_list):
             # for backward compatibility:
-            if node['node_info'] is not None:
-                if 'channels' in node['node_info'].keys():
-                    node['node_info'].update({'channels_optical' : node['node_info']['channels']})
-                    del node['node_info']['channels']
+            node_info = node['node_info']
+            if node_info is not None and 'channels' in node_info.keys():
+                node_info = {key:value for key,value in node_info.items() if key != 'channels'} | {'channels_optical' : node_info['channels']}
 
             # if specific node information is given use that, otherwise use default for everything or per item that is not specified
-            if node['node_info'] is not None:
-                current_node_info = Draw._NODE_DRAW_DEFAULT_SETTINGS | node['node_info']
+            if node_info is not None:
+                current_node_info = Draw._NODE_DRAW_DEFAULT_SETTINGS | node_info
             else:
                 current_node_info = Draw._NODE_DRAW_DEFAULT_SETTINGS
 
@@ -236,7 +235,7 @@ class Draw():
                     bitnumber_used = 0
                     for node in self.node_list[node_index:node_index+number_of_combined_nodes]:
                         # we have to look forward in node list  to determine complete size of the combined node
-                        optical_channels = node['node_info'].get('channels_optical',[])
+                        optical_channels = node['node_info'].get('channels_optical', node['node_info'].get('channels',[]))
                         classical_channels = node['node_info'].get('channels_classical',[])
                         # make a bitstring to indicate occupied channels
                         bitlist_optical = ['1' if (channel in optical_channels) else '0' for channel in range(len(compound_circuit_settings['line_y_values_optical']))]
@@ -522,7 +521,7 @@ class Draw():
                     circuit_label_x =  node_x - 0.5 * compound_circuit_settings['spacing_between_nodes'] - shift_combined_node
                 # add a label for the circuit at the top
                 axis.annotate(               
-                    self._circuit_name, 
+                    compound_circuit_settings['compound_circuit_name_list'][compound_circuit_settings['circuit_number']], 
                     (circuit_label_x, compound_circuit_settings['circuit_name_y_value']),
                     fontsize=circuit_draw_settings_dict['circuit_name_font_size'],
                     horizontalalignment = 'left',
@@ -838,6 +837,7 @@ class Draw():
         # if last node of circuit was 'bridge' plot next circuit. Otherwise show the plot.
         if this_node_is_a_bridge:
             next_fock_state_circuit = self.node_list[-1].get('next_fock_state_circuit')
+            compound_circuit_settings['circuit_number'] += 1
             next_fock_state_circuit.draw(print_defaults = False, 
                                         settings_for_drawing_circuit = settings_for_drawing_circuit,
                                         compound_circuit_settings =compound_circuit_settings)
@@ -925,7 +925,6 @@ class Draw():
             # make a list of names for the various circuits in the compound circuit
             if circuit._circuit_name is None:
                 this_circuit_name = 'circuit ' + str(len(compound_circuit_names))
-                circuit._circuit_name = this_circuit_name
             else:
                 this_circuit_name = circuit._circuit_name
             compound_circuit_names.append(this_circuit_name)
@@ -982,6 +981,7 @@ class Draw():
         # gather all parameters in a dictionary which can be passed on in the recursive call to next circuits
         compound_circuit_settings = {
             'compound_circuit_name_list' : compound_circuit_names,
+            'circuit_number' : 0,
             'number_of_pages' : number_of_pages,
             'canvas_height' : canvas_height,
             'canvas_width' : canvas_width,
@@ -1204,13 +1204,13 @@ class Draw():
         circuit_for_this_station._length_of_fock_state= self._length_of_fock_state
         circuit_for_this_station._no_of_optical_channels= len(set(optical_channels_for_this_station).intersection(set([i for i in range(self._no_of_optical_channels)])))
         circuit_for_this_station._no_of_classical_channels= len(set(classical_channels_for_this_station).intersection(set([i for i in range(self._no_of_classical_channels)])))
-        circuit_for_this_station._name= self._circuit_name + '/' + station_to_draw
+        circuit_for_this_station._name= str(self._circuit_name) + '/' + station_to_draw
 
         # iterate through the list with all the nodes in the total circuit (self is the total circuit)  
         # modify the 'original node' from the total circuit to become a 'local node' in the circuit for the local station
         for node_index, original_node in enumerate(self.node_list):
             # get the original channels (the numbers in the total circuit) for this node
-            original_optical_channels = original_node['node_info'].get('channels_optical',[])
+            original_optical_channels = original_node['node_info'].get('channels_optical', original_node['node_info'].get('channels',[]))
             original_classical_channels = original_node['node_info'].get('channels_classical',[])
 
             # determine the channel numbers for the node in the circuit for the local station
-- 
2.43.0


From 4007bc963db690be176bac34d4fcf1f6ad12a0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 15/34] fix: names and correlations of outcomes do not depend
 on the naming direction

---
 src/fock_state_circuit/visualization/plot.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/visualization/plot.py b/src/fock_state_circuit/visualization/plot.py
index 30db002..15a72cc 100644
--- a/src/fock_state_circuit/visualization/plot.py
+++ b/src/fock_state_circuit/visualization/plot.py
@@ -195,10 +195,11 @@ class Plot():
             str: name of the state of component derived from photon number per channel. e.g., '013'
         """        
         string_format_in_state_as_word = "{:0"+str(len(str(self._length_of_fock_state-1)))+ "d}"
-        name = ''.join([string_format_in_state_as_word.format(abs(int(number)%self._length_of_fock_state)) for number in state])              
+        list_of_numbers = [string_format_in_state_as_word.format(abs(int(number)%self._length_of_fock_state)) for number in state]
+        # reverse the order of the channels, and not the digits within a number
         if self._channel_0_left_in_state_name == False:
-            name = name[::-1]
-        return name
+            list_of_numbers = list_of_numbers[::-1]
+        return ''.join(list_of_numbers)
     
     def _create_list_of_values_from_name(self, name: str) -> list:
         """ Create a list of values from a name string. The input name has to be a 'string of positive integers', where each integer takes
@@ -211,6 +212,8 @@ class Plot():
             end = start + len(str(self._length_of_fock_state-1))
             values.append(int(name[start:end]))
             start = end
+        if self._channel_0_left_in_state_name == False:
+            values = values[::-1]
         return values
     
 
-- 
2.43.0


From af7478a320da287ad0173acf132e7730c5150f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 16/34] fix: a pulse width set for all channels can be followed
 by other time dependent steps and measurements

---
 .../__pycache__/__init__.cpython-312.pyc      | Bin 2527 -> 2445 bytes
 .../__pycache__/circuit.cpython-312.pyc       | Bin 49458 -> 49708 bytes
 .../collection_of_states.cpython-312.pyc      | Bin 66213 -> 66423 bytes
 .../compound_circuit.cpython-312.pyc          | Bin 8836 -> 8754 bytes
 .../__pycache__/state.cpython-312.pyc         | Bin 38651 -> 38316 bytes
 .../__pycache__/bridge_nodes.cpython-312.pyc  | Bin 1996 -> 1914 bytes
 .../classical_nodes.cpython-312.pyc           | Bin 5835 -> 5851 bytes
 .../controlled_nodes.cpython-312.pyc          | Bin 7982 -> 8249 bytes
 .../__pycache__/custom_nodes.cpython-312.pyc  | Bin 31925 -> 31822 bytes
 .../measurement_nodes.cpython-312.pyc         | Bin 3302 -> 3220 bytes
 .../__pycache__/optical_nodes.cpython-312.pyc | Bin 30678 -> 30856 bytes
 .../quantum_operator_nodes.cpython-312.pyc    | Bin 9094 -> 9246 bytes
 .../spectral_nodes.cpython-312.pyc            | Bin 13106 -> 13024 bytes
 .../superquantum_nodes.cpython-312.pyc        | Bin 15923 -> 15841 bytes
 .../__pycache__/node_list.cpython-312.pyc     | Bin 11879 -> 11876 bytes
 ...cal_values_component_names.cpython-312.pyc | Bin 33962 -> 35172 bytes
 ...escu_rohrlich_correlations.cpython-312.pyc | Bin 38036 -> 37954 bytes
 ...ir_amplitude_functionality.cpython-312.pyc | Bin 22550 -> 22468 bytes
 .../quantum_operators.cpython-312.pyc         | Bin 18124 -> 18042 bytes
 ...ollection_of_state_columns.cpython-312.pyc | Bin 15264 -> 15260 bytes
 .../column_of_states.cpython-312.pyc          | Bin 48958 -> 48876 bytes
 .../interference_group.cpython-312.pyc        | Bin 57244 -> 57212 bytes
 .../temporal_functions.cpython-312.pyc        | Bin 17212 -> 17130 bytes
 .../collection_of_state_columns.py            |   2 +-
 .../__pycache__/draw.cpython-312.pyc          | Bin 52902 -> 53140 bytes
 .../__pycache__/plot.cpython-312.pyc          | Bin 23805 -> 23866 bytes
 26 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/__pycache__/__init__.cpython-312.pyc b/src/fock_state_circuit/__pycache__/__init__.cpython-312.pyc
index ffeb2ea6dc3439cde55bbed7d4ea01b8ef21e721..82f720328997eefebee24242ab8744479aeb9d39 100644
GIT binary patch
delta 56
zcmcaF+$+p;nwOW00SK(zzh-UZxx*o+p<k3*kgs1{l&qhYpPU_ET#{Il8lRk5lw6uw
KqCYu;vmF5Pa1#Fj

delta 153
zcmeAbzAwyknwOW00SM;hC#G%Wxx-Okm24FgTAW%`9Fvz*X=!O;Y98aCm+DfKS(d7x
zs}PWpnUh&i91|R_5Kxq#m6}{q9OIr@;!&F9oRgoITCD4rS{~pW<CdSC9bA%FlIomU
wlw6uwVrXCxQ(TlBlLi!zF9u1(Cqran;^Q;(GE3s)^$IF~aoFTe7Uiq}0Ouq(7XSbN

diff --git a/src/fock_state_circuit/__pycache__/circuit.cpython-312.pyc b/src/fock_state_circuit/__pycache__/circuit.cpython-312.pyc
index 5a9b6b2a7f1b967b5bd97eac74597dd6a42d4006..a06eddcd89089ba99d028a7f53e545f3deb99911 100644
GIT binary patch
delta 4144
zcma)9eNa@_6@T}={eEv*mi<5w7Fbwd5m=B9MLv`d1w=q=5)(f{V0Sev3iwzQ%zcW+
z7&Ad3p3bypQlm-Q+7Yd0lhh`iG&Y@yX;QN*bfB1N{UdFi^p8@tO-<US_rB$=IL%D^
z{<!bFbI(2J+;e{Socmrs#7!LL;yyAO4Gej{Eq)#N`<IvEx($vTkLd63^9+by&-OlV
zPsc#8GwAQ|c8lJ@?w}|1Cxg1sK1Y^(hw-5xqKoN+nE(qLhAgmuObh!f3_1y6<l}+}
zQYtDDf{w9l!nPUiFMz)9*-pHoBisb|xZ)4SS#BUGiiJeiY+?soDYL`Wih=Z}$@d5|
zCou8uiITIyX-{p$Q#-k&E@G;C@1cmP8M-RpPMEb)cQETiJ5Wz9!-!j<uu4ijjL`@m
z)KmB9gPC*l);BU3!Ig0<jMwSlLRD&N>i;Eqt*WKW7}dovK9!>F5JF7w8~G|?hk5{Q
z)s=ARhy|W#<&7HI!$)^8k~(OHH>#_Z88FqvAq!mDYgxuAx)C#4Nwly*wPF{ml{p`m
z%t+c^HQBc|O2e74MEHG;CZ>^F=~QzQx^o<)x3t8#urf=gf3?zx^su(6#n{C#TUmyY
z3=)rdB{HleK;bF}>|CYSrOlg%zSnH=SdWe8h&X*D6Bc0nRV%!;%8XppdAPCaA;py5
zByaZB`{5QO9o984+nypz;~((%c&!BzhOO}Am<^t2)Iy}zlO-ht-BCLveF;H@WEAUS
zJWf#DP3T290mpY(6sb`O9BWo9uJ9J>$~Y^s#F;tb@OYgby|B;&jnC@i&aoiWyW~Z4
z^*pjJ6oC8&9@$`h{UXJt23xTWTcEdo1KRz7=r=A_+sH8~hT6BRiUJ)~FtJEZP%%8$
z;6V2Ot%kD^NRhO`uGLv4x<2U~7u~d!2&Y%4En9>WNr*}0Bmo<I$@|D8w$m|Kp#%pn
zQeZ^+QWDk$<m_<*P6A=gCM9fea80&MAFt&>+ZYATKiBZkJWtm&@+d|2IjvEUB}W?h
zhf{H~FQaD}(d<|N-NlN{1-ul6CrhUVD`OryaM})5nHBk<5pFixxYR&3sWZvT$p#aN
z`gEM`%alQ;#;G_xiEbu?@Ukdx0F7E=T<2(#ijf2N7{Qt4Km#+D>1B5?UUr*`EXu^0
zFR-H;6(eOynL%^Ri<r;EAUOr{G0_mSDOe*Lb1iTn3%mZyfyG$iI!80eQDy=wW!;Mv
z3-bFw#sQ}SYAO2x2#hrI1vxky=lHT;Vx`=L^$Z(ud^eg9Vk_N5y^S71o7>0XTzc}O
zW~4lv7g$UK2VXYx+9gtcEaCZh2{_lr60XgWqq+S7AFi$CQNaToLkq7hWEos=|7f$g
z5F9P7G2}eg5=F~<EqtN}dwltFY>Eg~AXCNjC@xqR$9bYzP1(bU8X{0A3oPxm651ov
zB{&|;!!~V6bOy%PC2EWCQd~^<^ObzjIg&^ENTs-xWQ#NfDPGwo{B7N%^PUyccebxs
zftFN;%K~-Lr3*)?9GAiRHmgcnMu_xwLM*?(Ta{FSmqA;b9g5ntTt%Rnh8<CkTORH3
zczbH9YXQPs*fo!^6_N{A1X}0{(~5}_#Sz5d<=|+4P$T8IQIvnY&Fo&TNE7^iv-ZmS
z+Rc>{Wr{q}UJ+=OZI&<Kl?4(hufAd;#-$~C<HDA<Op!l?yeuLoM#|hvMwxQmr$VLc
zo3yA6@TSVp<xR&_g(6MJtjgQhKRl~nJ>>QG2fO=vXSp5z;H=)?JGjd)lDoyMrnA4_
z-|GW$>mzV&>ptGlJ<#1tt{uHzf2eVr51}fUc>KCBYv}dw?by?~bI?B!+TU@H@J}4G
zL3+L$-s~)4Qw8|Ev$DOUHC*!WRHFNA)?}h59FN0W2B){|i)`69xdoHYyBa3W95!c9
z8gtGTUpMB@c$&kW4O14^Y2Tz}Nmv*PZ`wV*X-{O+p2<x^<P&PT!WnZ0Cav_1`tb6#
zlcg=;(sf}+>vQcl9VHiQFV=+}%Z|2(wtIJ>#G82y(|OI2yynTgmavdBlT><}F&GEn
zhA)G46v5ZNrAr*GXxwnuz%-%_D7<0I)V9v4HC-2zf0A}7ZK}8~{G>Rp{!M)0oQ*CU
z^R0sY{->;8Fian6WB(d`-J!4b@DKk<I?;<-=>&a|iC)wm8sENFWty(s9I4zqS-Ca5
zZD=xYICL`*X3euseYZpNN4LH^Q+3O%@6HWf*>xUe^^+WlyUF0zi5{9SUFXjJCp)`H
zjx_Y{H#i`kgcE(cQA0@8-^`&tXdCz)+8QbdIuQ~=>j!^;(5cWDd-fofG~@o)tPX72
zN3JW91zUXTo(7`b9*i~RfRm!lZ1HJhMT^Lhg=0f*tyQv-yM+~gKD3y(RS{ok$tH8B
zYpw9rP#&ybl>)Bef<*h6#jEP3mD@!sGAVJATCz(P=pHV!*ojrcODwRXIV#4hk}Q%P
zE)AFDoFST28>6V@B#oqw;g+ALWZBS}eHCgn4mS??HNT{h`54xWbdu(Nb|gi3hlWQr
zuv-j@yC6K0$;+{$4OILH{ypME!;o<>8GRS34z{DKFnVxf-mHm&wqNY)>g?*?*&Q4f
zPf_s?s3s$w>fF^&*n>Vl=nu7Ocam$>z#JRec1VLz68N4zU2@ZrGwrB}IBG5rMI4Ps
z+h<IU)8^|Y=cmrBALgFPJ-hO9@uahQ+%)5<IodoW<bRf!4(W#r%5{v<J}tN-f_qvh
ziU>tl_0vs(NK;_CsV~yhH`%nCT;l8577CxG>)5*tV{B#bvatW~iAPG3^i624l!-47
z>&oukX+g}QjqJVK$xKcwx_391$?xF?637m&Bs-c*HSgyM%_|I7^YWTk8pK+{_RiN~
zLNW~fy`W9#&MWZiXPoA$g})3K1vuK1Qb;XRjj6qyoKyRJmsLq>titLOM^fx0n~O*`
zIg)2p3^#~0Bs-KIS%Nh1#E}fO25X|~;Peq*r6pAiHq_bNn8jMmO{kPsD0gtZWRS0+
zCkS?Uj4)5y3jFwpjs6kj%MyZQ#0KJ5+<XPs63I9$;5gcVNFCRcn}SJ-gYi>oMm;vg
zyo!h1mmM(jtno2&J&8W#wmkpiA)gC#kgAX$Y*1!Mzaqa7vgHJFa>%`w3Sl$0$mhUB
z&>QuVA#I#?8Z&(PY^q6)NDRqwq2!|m4!sYq=PQhHa`hDli5h~|r=DNO&KAJSCsW|_
z=M(DpP%gC~?j^&l*6ZsV?AqxUdnijr^$?-lR=Fa`NfoIdB5jl6MmjV>*(jh>@Zo4V
zveG(iIo5R`MB#gZY?l18<ugKhn9un%v+SyMDzhyjq?6j4ResS&aMzC-SW><E(OL>W
z`Xbe<AFZRz>Q*+gxhK5Y7vA1;dGl4<C&?csf0Pobewc`mIWlIov0)*7hBr;~t_bfs
zYrW1F%xRdSve3K7@=*GnMnnbg-7aFBo6!JIy#3MQ)f(Y_gRolAiMK*u9j`H<Td?9}
z2kM0vPkt+f#=y--_bPAm7Tuw|*E67d@m+K~^udc&2}D|Tz7$PC#rZ5pgo@12;TbZ_
zYDIsa=<|!>HOhJio;vR)CcaO`58#vY+t6E3aN!DC9s0|Kcum4Dh>V+y=7;{&h}XdU
z=5ll?wD!##EGe+rmwV9V(22`yP`qsB&s2sdVHLx0>!-iX+^tfZX384pI7-|sDxFhP
zf`lNg_>Pv6x3|M*Z)bWMkh**(Gk1=o#LbH8IW;ASTy-s))5^4tahBfE%jEh{`8&-B
Zy&f9*8CH=t{;&7)^=)xzv6xEC{|8^_g_r;U

delta 4045
zcmai132<A*8Gieo?!%IGSiWsZPJG02d>>eL?AUR9#C8%>2-L2LCB?Cv*vgX}$Id>S
z1PIL3X%c=qFc79;hB9<w5>k}_X*disoI@+c0UN_GnN9=Ki;5(LX2_K8J{@se+U{8E
zf4}{&{rBI0_s!kU{qhi(^uAWBVn}=M=bjzwZk$aTQO!)bZtMSn-^2U+$97HC)zwzj
z^!JW=TKSQ^o?J)n=A9$EMtuJMzB_X_^W$ERE8y?nI1*@|7;4!yKIZW|dOVYxTl(9^
zU88-0?Ez2A2=AI036zzV_WOBP{|<r=`su`=D>~C3`(NUlT9$4f8V^3L`r1+Y8S&{+
z#*HxJrSAP(n<is7OM3xf<mLh#d|F$NIC!!-8<L(@Kx3U*%f*F=4h1Ch=>#>vY~2+t
zUqYsqIe&m(whY2}RSG<En?K`T0v=!@8b)9EY~|vbhA{clHM}kf>sled{=6Z@L|wwH
z8x5n;0*2w6;jepIVXadE>zrkh9*p|n_+B%-=9F_RM(~}pt4bO7!OfjQQTh-<OyGNQ
z34_rAbwCX>4fRM1s5wh36Akghj35o@;7UV76o;n9B$NzKH5gkGdJ!{QFJS`4xJ4|D
zTU>#$acs1oEPx|=<zq##r_s_NNvCuMSst54R0t9*`9E?}!Yg-+a**7b74z&;qYX*m
zo5tSQ*u5@Kq>ON4od&7l=!P!!5X1Dd#D+>xLrzn+OweGpHwTj2(xIVAskX+K;I+Y)
zCOZtZnc$%&J<6vGhPkHOMTK_t9*kO<fxCzzeZm1F9B4M60+I8X=B^~HA0*orZL>dw
zr#jORf`RpGqTVTuG``0W|2dplpM&nZrABLVOHL6VX%h^$aA<5%A>)eiy{#&#iDZ}q
z&Ym;Luo0WE0bXm_f?O+@{+m!46_QXPm~ZVv=Kn3inMiIN-7u~r{BvoiV)-qkfVM5C
z#)4BwFbavc8mw}s)3briv=7wLHPD7F@!c0sPAXP-#gK9uoC;HIcaoTd+gf6~b)Z>=
z(uhBq(7RC{!@L_+P`)v~pL1jsNQ}PRsM?*0)7;k48sbA%KpM44tft4UuD~+ln8=+S
zs84Wb;q2i=mh$QqC&d<*IfQVgw?RyonRa<u4$g7g#d9LXnK(zx-duv^QOu8KjS18`
zn?_EEn1j0CByv!X_1*$V?l8~TT<kF8Vh1E-1vYFu&d$mtj9?dR0bRns#A-;ib7DGV
zLJrQrGSPD03UBN<??1fBz;V<%Yb7V1@ve*OPK^@`Gm|@GO{Cwd6>0HhhpKQjUWHe?
zSD#>o{D3+xgBh&C`VlmzNyrs|wbNoQa7%FhoFb7fg}Bh0L4#)?D<CGtlUO9INo2zs
zTm(luX*Q4wB+nNkyKRLF&Mp-yzBM)%#`i^VunaE72s=)(@NHvPR09|`#WSXJlgd(p
zOWeg`RMry8AyTE$J%MwZlDLxS&Svjrco|_R5gE$HOoU!5(&gfIkxHO0kIs=0Hq-Mi
zUyI9dDb|CvDKqsH*+bfd3S2?fNos(gkFOB!?cNsi?Rxj>SZ<f}sJbd~rFVT)Ze=f2
z5xjLJ5~YP|g13DSUPG!saY7>0;%Y#>7C8~-b8#)q_m~kyQs6H=Mv=-dtd57Tl{uQX
zA_4PoUMvCYggjj9?V@Yc)y-AJ`4NL_Ap9@d)8JCC5nkyvB07@~1-+V#@7H-7)d{`5
z7G2c}eYM_h(aK7!(rclZv34%usi44$K5~h{k<A%q+ax(Mi2Q`STU79s&FylKZL3E;
z!RBp8B#vd}hJ7xNFEBDb#?!4?=7v3iWu<3qVz-AUuYqORcAw8P=3eG@Z{G(u`|prS
zT;ske*fOv`xHRBGs2-ey7lY~d+&~gqEMR_3HC(nzp>L?1eN7Dy4%Mew%0l|G-)r@u
z<kbt>{AbH9YKxbQj*!Ly$*$1AbrqvGhK#EgbgSp=p^}z`qSlML)+JlsaouHG%>^#x
z>{+Po4b^TA*|reKTK)W<u(d9v$zIY~pY974HZH7McTu-4F7Oh1i4EE6kLe;Qj7AUB
zu8g3~-HjAWX%$x)g|-_Gd#qe}D}rBm%FD{T(J|?V`jUv6%%F&gF{LgV3&O^NP}@Bb
zhS`rg*^sf|8pD{nSTfdjL9Zth+IH-Rk9Is3yl=QeA`9KIXQ7A>eli+jlRr*U4m)L6
z<jS2$^7&fjPFe86*mFoWPU6D*VBD959)lykJ*X}Cov(vKW6%-!4E-orFkwSzYp`qY
zGYIVsUY*>F6iNmg_91Vscz$%#28Qe-ygpSZHwq@K#72lrWvEO}qL`LWB^alh!8h%&
zn2)BoBqOv|t|AqL+(d#@Fq50;SJPESGfr`<PO!kv=1UltL`V_LaC5o>O+o4YOo^RA
z3>=%v;S5o$Ff%1x?Uu)j7B&p(i8Zm^#mrvb$KAzDA}U0#)#J_Pe4Sfyf*nSLFLAFE
zzSB`YF%d<J!8`WXNzub_?0`r1Ceg;f58ocxj(jk1FjI4$0Lv2p9zMYDg$EAW)nerK
zQ?~aYc+i$f@5e$5zm_8HwA(_vt+aa-zB<^8-iGEweMS6}6nTqu%i1x|<ly$*zFi}M
z3AbliM~6Osd}#X+c`gU0;MGIj@-gzB@Y}hd;XWBc8IX4W$;^m^(~h7eecGbF^rF7>
z`S!5h`Juk_x`Iiy!k_PVl*u@48!OH`!g|M|zA~(@e5Ye^(^z=Z7|E0-ww?WoVX8aW
z>kO0J$zGR1?*k9d)MO~zQKXj9SBDf;H?H*}Cbf^faW$RE??!)*q#|PT(~7DWYtPoc
z)UoL74?Fuq1D>$c6WTGnP_grv@*{oew~-`7O}B4ZZ1;xSy~G%KZc$_98)%M}wXu}X
zaq~LM6pwQLA`*r9^z06e?9HM^O@~4CR+72H!oIC6=#;VVutl9V)w`CWPEPus%+i@7
z<(mn=D^{cl$uM&AqfeS^o1o^fE!jdYG&C4{GgI4e@^B`E4!3ZUF+CjY$&r#5s#i-d
zG94-K!PrG66=WEmdeB^qSuDleoFsnliPxN*R4y6eewZYzl3Y|udV_eAsgmOOixewJ
zA=bnSF>#8%r?7@Hl5(sh?*Xl#ft!;#Iyu(HvsOq77~$2Eneah_>h56_pxk1^>UedX
zCJ!P(7syD=DB?53A8pKgy^xH_la-2N9ZnX{osNDML_H;!iiyQKIQ>u-#|oO@@<S>P
zy#ZH#T$iPbR#oHRe|}(*9A7iLNy<+UtuQ%TS~p1up4#B|k#1S;a*t08?eg%W6cUfZ
z6rl<Y(fp?y#ZyoC_3+18Ku^NGN2(>HQZTUjOe$PFa(BgxG_ieTugK?9F{8;1sq;Uz
zSG{ApWbX-Uaxd4^hcvmDG?h#Cnnk-aY<Di$8-qXnNfR<&wJ^53kzYoXy|GHuYE|%G
z1pjulQH8#M%Et%MZg}MJt(nxxLUq&`(T^`gXJ~g4*e6~^UkB%(a2g2rKc1^Z3s7-7
zFFQnM7isqZ>6YcZXPkF?c>V(lorj6jg~Y_qNdFeRdwKx90QqO;QAh9(XY?||JmD$i
z#CY-n%KrhV&()$Ag01I1VM#H~eR&jJ2+qFThV-JDKT#evSv~(-_}%%B?S6?=w^X$;
z!cpRKX=Ox8iHMBJDZ3`8<W(<x_G|mvHYBZHvKK@+N?fjMh)5|x_!^o~L@v?_##VVv
hDU!DbOD}XFbT&Bs3YMU)@XdU&a%&RG;IoMNe*!+i2%-Q0

diff --git a/src/fock_state_circuit/__pycache__/collection_of_states.cpython-312.pyc b/src/fock_state_circuit/__pycache__/collection_of_states.cpython-312.pyc
index 820e8f12f79b2cdefba79c1feb45e1d4a8fc350d..27853260baf72efe5e0451d27890ec0ec7e58ac9 100644
GIT binary patch
delta 3289
zcmZvedvH@#9>?#wdAE7BxoMKNNz;%*3bnP+7P~D4B)F(7w77^5FqE{54VBiL6o+zy
zIOC)2ma+2Fp|YqjyN<1NT=e=tR+fjZ^01P$xCz0*uHr1HIH4`DU3J~_yCKD$-Sfxi
zob&sg$M2r|``&Y3enNijNxA-{PM5*Z;^Th`EH%BZKXs3zqKt2DZz~J({<7b+`Pcb^
zp~g_N&)>rPJ6b|zusbV9^xtdFWjC;Jx!(p593`*7lc80Fh3L8hS&g89($KFI8bKqV
zrLejtWX3J92&%m#)e4gCrv$a2@@1y_)Tf|5?PQM)<Ux782`+UQHT`l%U<Jmf7nK`c
zmBCvZOIY3x=Qh4growZbuV$!T(eBayK_AU7g{Rkh(%m82-L~lt)>|c>*;JFy-a_D$
zU2drB&4>10t5INmvdP^@a4pnruY}&0v@#OVLE|zG>bB`%WGF8?tfZSOee%h{EX><(
zCRtK=k8U$67GrqgqUV>f*&1F$hw*xZ4Pk~EJ#KCbZ6@^Vn;-G{+ge+j{h^k&^>9y5
z5lsAk%5Be4=N4u>o5?Nd^TtZN(Gu?mO~+=w|KPA~X_r1;Ssklf9<5y7r9Z8ndB$Lm
zyFD>?UDRC{b9<w1@38x}QAVL#4ZdBj@{yVIdNikvWpSe;W~_)BD`Li)sIew8ry=s|
zRgu~UJ~jH1nRGBo>KUUWqPB~#@A`s}fcWf-AFIjZ(D=$A35sQXTM2nye7Ao>P5{K$
zo*;X~>OXz1CNF|*zn%2L?EO!Xm*CL;Jn{mZ-9MGQC$jHeAY`Zb&4H5y)E9F+1G2pe
z`dGAt6+e6ZiUD~#0qChJ0~YxEP(J+Yy&}lG=o052bh4RYhFQtdX<6ZHSbfk8j~yB(
zNpZvBLL$o!%%<aWOTu=6^)gR8{OnrB&#s~g9CiryrYt;g!GU~+?bgbfa6#AshmY7Q
z3#gZqy!IwD)=fFPlwoJ6nl_~(C<W($WiQ<qOSq7RR)ep1N}-S?SURa~z?$|Frh8P*
z^pNf?^tCGkwU9h&);Xk!6x1>ogM`kb9b_K*)XwWZFuh+(9Af?ZTNUIgB#v!UEBJS)
zkKYe%#~sRdX){p_-&GV_`w5S#<ex;`j(7^O6Z(%&Dd@)LUlAW7FlK%$#YL&r1>YRM
z(;|(*u=!(%;}rdDf}`T)pz(x>6hg;|(o7D08bmI<cB0m@2b+Bq3Hd{fp$8N4;KO`~
zZ-vcgELPq^?Zqy>5XZcM5D|x9#>r)58*D!5(PK;r<@%0?)-?0{hw$df{m!S+q{F;#
ze5k#(CDhT>oY4B)+FP2Nr0)uB{&=>+MF*{h*E0$s@v%qw1$~U*AgBk=X2%!T#};pj
zF5Wb*QRKP04C8w7+rec-R;XDA^H04+IJkD|&8iH>S^U!G=Qj@*l=W!i&5vGX7|(n*
zva+#H8>w6x_0&fi?jH86NT$q2cd7w{kpkl_k?JMUlBMy|Uqot_MN993A0p+3(PB=w
zjwJKwE+lyefrAtG-8C_~oMpH+GVz6ppBOD+tgFZbO@hKZ*@?u|j)~DK+%h<wKFATZ
zv%XAyROYO&P=7c@TVJjG$f&8WQ+|}ILe8`{$T9|J85-1ZDO$yP<WMy9Y@NUaCO>?1
zjq8PKC9NSgWJp^Dc0e(yA(<cxWYKh+PqaXW%|r>+!#>0KbqUGC3PBODVLGy5B~?=n
z{f<Gy8yuV(o~BZVHFRGGrnyCpq6lZKWx|<4hL>5DLwi~w6XqS_SV0SOPFsiz9)81=
zS2P($W;zIIs!mXCKWw(>1WgM`JE%||kR;*(vX^56({U@AiiU9cv{|MMl%je2CC=TX
zq-xZMW=*aw6Z8YBwBEu7`jC}Um<B;UpibNA@>l8dvOpE}nRR(LW(TSz1-|@gIl;#>
z>uwyLEZ{;5$r25J`<%5Op_BLz5GN2P5rY&<itW4+v{&qNex?z0;!Vce5vX{+6@dr9
zONyh%#_$Ues22Xuu=<QunNlDXk#(vuC7-X*8AS{sF#q{DVhZ9MymO|QLoxARBHAf}
zMhYj4ooQ6n(@QIu#lroGhW{0a7CNtaXN(jT$BO1gi{{3P7DkH}4j27$lrd@UB~fi*
z*B!l@5zfA2$umoaId|7Wu%7)+H4UA~5>fZrS(Rxg?&(F`N3o<hliv;Be;FdLLi_mx
z<QZ|sSJf>2AUFSG4v}wV0($7VV9reEsUnmG`!3jEXk8whzc7vH@fGWRD!P(X=mZW;
z;;k2#6LJB1zn-h2U$JnukPW;4!okggS{pVArlwRva`0FKrwp3~E>Hx~VLRBrQD^0Z
zEum>YThN24aZ?Vyg>>eHt%6m^#P46&#xjCjuuXb$1#_SPXZUjk%YWtST$)U#CJnAb
z>kO&R>ZDI5m}x%~`%UaxBCu$~wW(EmeY8&U>S-G133;ix(%Jm`T#k$W>GXwW(D72C
zH%;DvA)UkFe0pEpgyGoo2aM?;X=WdjGu>ZH;whEx7tE*Y^8@8lc6Wb!7x73wOwqJ&
zCR&J1v|c)|bi7Ti`~k#!6hZufaXOt_csH63LGHL$d5&fie;As^S140jfFt9kaw(Z7
zbAZQ(y>XG;kV-L;GImLEE-0?JXZ=5^;JNUN5!Hy_A)E+FL#?plN=czTrHWBBk0I#y
zi^hjYi3I+5<q`h{+D~ZkDrs$8)7;Ac7W?`(zGZF8`o`AOUusH4QuOC=dIE742WGUj
zHu*L*wstfJ`A^aM8RCY%FdV#t@?q;$kMbyLECladJ&+yuE{b`BQE!mmLHW7#4$_L9
z*DR#ms#!$!RM2&2Z%*7bHRh^~x@u#t1yR?6Vb{V@#-dw9dh{dt(_{H%(fqRE{Bn5n
zpFilz(4Lgx<Ybk2aN<Qmj>F3D?<ce1g&(bA<oiydlo1-49O{2uOlqn1Zf+-r`Vj>^
zZ@lAawG&kT{$$qU=&&Mk5jzksAkHH$A}%8sTv35ggZd{2DG{grG@EcHg=2R`lA%?k
zV$m4Z$&%+f$cjf>iNeqq+P9#8W0JvkyyWJ6rvBTLGVF|)ZDR^-TwW=wQy2~}7-ML4
z`Bt_}Vc6|YGPK%PF@{xg4Ph#);y0Jat8TfhXv0ORAM5z^o02kYj7%@>3-%W$C2vy6
z<k-ekZ3^lbU9+Q}5U1`GjX$BF{}k;T`8_+rgbWeGj(V0@iFrp0OJ-zkG!m|tyTV}2
IPo<;(12@j8MF0Q*

delta 3451
zcmY*bdvsIv9lyVun|IRCCT)_oq3MH?lon`3N(Bo&E%JsynaBvn(nL%MExSo&#hZc0
zgFIFz`rR32JjU7128E8nt_}tW6(1;wBvwg`^@t4JJo6C>i1l>1-}jaj`2F$uK7Y^q
z`Tl<Q*7Mw-H*y*0^?D6M+qVn6PyW$xB;(>^>z{9a$o;dBj}N(9g6%amlOC*gFKF>K
z@cyTL_6ob}DSyzvCgg5hVt4Va0bg@C<euRV&um*!A8c*$g(~Lz*1GE5kF++gY794p
zef566xy>K096#P2;+x%1QokpJ0Z;Q##NFH)4ANoztu3C`Cp{q;u|X~xmYQ?fJuKK?
zvO-;`pPYaR;pOo9$!s{f$^_d^Yh}{~HB1Z7g8zk8_xdN3j_F}D?g*QpJV=JL5b4+{
zs05`)H)PY8oLc%}iw)SI(q*)&1*M;)dl9DNHI5Njf$^xtj<y3bVuPyo@vyR8B$FU-
z-2o_TnGfWd+3a+UIPaOs`I;&^-*!eId;vVM%MORO=W~rrSPo5_%)p*C!r@N~bTtg)
zW*H_Ti*R0;b|4!LcNpOIrUrI02cBJp8i74X!`Q?#or_qNidR#e&w$^*=u~e&wS@va
zzH?^%OH|pwT+3o~xqZe_d%f|}+E{7rn_SPLH&ngGSyA1rtEFZ8tN!#<R9BoRal}h%
zV<olml7?7GLvP6={ftcC2w(3kg1>Fc&Qnr@+|V$l()2jdX-j&Ik41HliBor7A;d2h
z?Rif{o`diHa)I#TYx}kk(kag98sNywP<Ln}*(;ts^qGq6hJ8nEWIMcdbQ9SF^N!^y
zcF|?7D}-lP7!6)uOUNH?_pELT^Zs9+5Vsxs4<TN${rGv}=$0MiXeMnDdDu9l;fLzx
z(jO$E5EOxID0Jt-u9Krl4v>#btVb&*PmW<pTvVJk5^`D0?I|Sd*#_oCTQj?oX=ayG
zibrfhmN(N%2Ni6HFR>juj){zv{8^Ge%WIURb)B4MS%i_ahv`lv8>KgAmm*RSt{z^Q
zLMZ4qr$1K2PS;kGjzNt}JJl{^3g&gx)on><QA%B*lu`s9N@w1cTNsZmZPAQ}rF}M>
zX)CEsd+$n`TadQ4k&Yw>@iS92wzZ5iw`rS<(!(%iCM=uc7vF#5B1dk*o_Ai*bNoMO
z7yc-Pqy?ImSZw?;s&^3{?*M)y!YqX65q3c5yTt{+M)eJZHxZDS{ALPYN!lhzzB|V(
z<={5?w-L@#=wg#5ARA2JI%gzy@SYp1l}Mb62`1QmZc5!=RQFLxa+C~DCArWq_%KhG
z&hQHnG7zRBU_Cnv`9jo>Ap9NS6cn6aL^^;!@5sOfCKWAht5^7V{!Q3_{#e#;(4}wj
zt@SjmUK8|(+q|&hy=plQ@&p{w*uj%jz`x!rQhZK#5_$!+7d}znP;z-in+-Q~;tv-V
z5t&2nhItoXC0QVgzEY%Onn{FQ8Xbu)eSE(<S~WN3nD>sa*ReQCT_Z{;!Z*=^5f4Tu
z&WV-JO^mIMPFfHf>w^4P<@(g9Ed45yDrX$iNPKi-Y;@!1h7WZm31?m0xj5!r-0OT4
z9i@qi>G29rtipp<Sz=6me9W@gm}O`=5>>O~RsL9&AFXls#4hO^sfC0tmZTOFMr|1A
zU%)b^Rx)tK$Pe_FF_z_ZWT2m83g@r`$<nrg{wl`tD-tTBC-J(<?lP&)$m}kw>TQe8
zHBxa_u67kG&Ki`6qb)9n=7PoGssQx|6WM+l)P3+<2Q9~RnX=(~ZqRP|aGA;kS->FC
zx1x76Tn!jGLFQ4xs$P%&>Ydw<qcv`&_o7jz5ae*=hzSn%7QnO*RZ3+<B`|?}={i<o
z-9^+ZnTSSEH!#a{sHGJ&fdY&YExh=lnbPa^Wky>uO_Z9TNiRd{tD}`P3bV~RL3Q8N
z{y42ed7xApNe<CdCVIJ0M;SU~@<2Jt8hK!Bdf>a#tDqNwK3tjh2r@z6txT7AB!lk$
z0cpw%f$LVK{j~JIq*KZQ6KE`3kEI|r>Zz8_>efe<1h<{7NA9O%cJz=DV$-G1*t{O<
z<<B6zgYYiGc?$EL`LOKcg8PcBaHnw+9sw`aCp|fauSdXg;*TTP5gHJFj<614sDvSP
z&Rpa)4AtBf^j}1XA`~Iuar1p(OgfENeEemEH55Vy3gAjMDd)<lHAvuCa^Y}gX`t?h
z267pW_>J03^->bk**4Gal*86fzEu{ZBjpg+_kE%??!fVemp0$2<^KSyuZBq%T)BFj
zY!!EZQNxnsV*K9^lTu2&G$G|-oL*}5-B6^NfbRxm_Kt*>uSUU)lSa67(jdP2Re+EL
z*#A4#K<~v!7QOCO5@n3=>_U?wViJsjV)|ih)`#zKHan6N9+e({3p2!>3h8Yap2;kj
z1udRr#KJNHCs>9fR>3sHTenrnxsQocDJ`<RYMh)(jU+RrSI9(dE!tjoB@tNk;n>ux
zyOXV#q8XHsxk4`O3w0;0C9B-@=t)Os*h!P6MyZ|KZAeowl1I;@r^hr!$m<@FULfV?
zF^-{62|iEd>5g|LeR7aQQllB;B+gFwrqNuQ_TH5=*9Z$f8p%<`BKCZ9RZ;vZjq?9Q
zI6)zVU(9Z|Z{SPNb&A5esrZKg$s6U0IHeAM8gw_8%<jQ3GCryIxA?>Url9BPreK?I
zh}FXkxtF}yW4Jt=MB?gvrxpHsv*f-4>APvsZpCCff(^Lu%M0^|DE}RLQV7=&aCvts
z02Y3~w($#UC)N141e;d)g8UYYUqX;-tq-*X!p9Vnn%1CqXwf0Q7rjY@%Lr1%<Wmjb
zq&(?Ons=*6aRN(cIkeq6j+K+2OW!1oSoedO6z8aC(xNHYJf|}!VJnQ=s$;h5xUDv3
ztL?Q->u0j{GYM=N7}SqJEhWSBR28i6vx5+ONc{T8213q4<=`^n6kiy8nJ9k3RWLB>
z_FPg0FAQ2>>+M?84s^anfgT<^Bz8dG?e`ye4g(g1T!h~t;LjcZIl`9+-y#em5c)67
zbMWa;Bgr^%@TY2G&XO-BdncqAl+g(@uS-g*Z2JsCmaO*^xnY0!aD7*Mia|Y5KK`(=
zYgS5z#^r45bvY{69+gd&8+z)mGgMp?$T+!SZ*z*F;_!s)C{im3^Wen9_{zk@N!R2-
z9F)dUCdw*OGE^>?jolyWa;BtcO2On<uPcL9G|=ysDdnc?Srm9Awe;gnZ^3z}&qlaF
zAt|Rn8f)75z1tVC<bzx-Zd1xeCjY3KvbxpV7WCEfncFAJ$e7I55yaGKy2+rF^8ODe
CW3MIv

diff --git a/src/fock_state_circuit/__pycache__/compound_circuit.cpython-312.pyc b/src/fock_state_circuit/__pycache__/compound_circuit.cpython-312.pyc
index be2345157f06919d6aec37e7563e83365c4b34e1..f14499b9056277d731ef171f2347823203a58e7f 100644
GIT binary patch
delta 57
zcmZp1-Q>b^nwOW00SK(zzh-UZS;-@3pkI_)kgs1{l&qhYpPU_ET#{Il8lRk5lw6uw
LqQ6;{H(nF~2s0An

delta 154
zcmdnw(&EZ<nwOW00SFY7<kB|stmLV0O16p#Elw>ej>*fZw6wG^HIMPnOLZyAEK60;
zRS3w)%*iY$jtLG|2q?<WN=+^)j&aW{@hDAl&dJY9E!Oo*Ee~*xam!E64lYS7Np;RF
rN-oVTF*GoUDK1KmNdt<<7lS0?lOZxO$@#ej`K5U&P=U>lcmhNLm|izM

diff --git a/src/fock_state_circuit/__pycache__/state.cpython-312.pyc b/src/fock_state_circuit/__pycache__/state.cpython-312.pyc
index b1ae33848efd82177ef2e67a7aca753013e8347f..82f254d6671a91391e70e9dd07858ba4dbee5a46 100644
GIT binary patch
delta 488
zcmeypmTApuCce|Wyj%=G5M1~_%WU>WJ}FH(RsEvWf_(krqGbKF{N(KT;*!LY)cEAg
zqU6%d68+6HG&{|?IDuN2f%vn+WXE#F$v%k}ChsejpUh$@Cd?`c6kp8<B!D1=Z4PTK
z^W+QKVoX__lfNa&bF$R16dBhrXK_!KOO~H}vRDM9X>xk96eH_o##R}f8o1tC)*9v-
z)_90PK(dB4m?4>oks+D6mZ_GpoI#Ug@|ENl8k%fHN<i5n1t4*YB{{#K@)k!*YH9(9
zRg?gdaRd^YY?I%oh-wPwrItfIlvo^}7@v}vTvEgh(#Z*zDP{xmCtIW{GBQq%O084A
zV`8!0ccbqCmE&3mwJ!K3U35ymY?AVklT}{s0*CYmJ_beA$xdkwx?eaLL?x$tPV}6S
zGTFa_^M;ge2WJoe4StCW91=f2OEZ{wGZnJ}jovHm!o@XtU7pzH2WelJ7$0uFn(4*D
z_+zs|-alqW@y+r@zATLDn{&(fSs86M*H$lPVGP}@*l?GbF?;j>=DAFaHJj(QP2*(j
p+-x%8Iy0l^W}YdJ8Ck_yB|le9{yOzLe>E4Q)+YuKS)>iL4FG;CmbL%@

delta 832
zcmXv~ZAep57(VBIY<IJ5k<&youVST!O{w7rfraxU#Sbzy=;qw+uI}pG=Dk;!wrK>_
zAIa)OKl=C~MS>P2_m2^U2~ki#W)g;w1V-3DO+ze@&Ykmx^YFgU^S<wS&UrRT{CiHA
zKblNNfFox@?09v5%AA@z9O6s4W?7JA&hHy2DJixWaSeXKA&LD0o6k0SMV}ayxu#aO
zQ3`YkydrZ|qEg-GF82lef}CG3gc{4a$^hTpq_`BJT$K1eQ7J4a;ADyCIxz2)HNna6
zC|s;M793b)oKDd%s?E8BMF|${iNt6934xaKSoF6&idI|)tPU_rj#8sEPjv#GxOf<V
z2#IDcv!yYT6g83ofFrO#Md&aUrV%k>qySGw=m>S27|FpoR<KHXbPwr>4rPk_QQ4J5
zvq$e?Ch?#a5&bTWPP$D7eONCY59_)NXs$Ss)GIWa=ubz#T*>HxJJo2~nE@b-rfeyN
z@fA(j3)Jo<A~3X@<9p+I+(QWD8ql_TWw<_<k+Se2iN&x;@qyrg)UMU1wVLq=LNLbB
z8n+Jv?#IsuQbA02^#q+kDd1jYdYqCV_xTj*h^FRfYNB5V#edx;J6%qX$SYC;R%HBF
zfYkzhQW(_gNrtt^?-}a)+S$F(**n+SyNa7&HL(VO7oH(D0kGE)n8O&oz|Wk2-}bg`
zzM^@--tv;4cFn*Su4y>Mf3df0#Cp~YbjHCbleW4CWF8tfjv2?zW9F!>@&h%`)<v20
z?`$@*2&bxlSgg0sEhO3Il5EjJ$GoL7%2aNxCxH{S#MZLCWou`foQ~bTPIHtQXN@Tp
z343R=Ociv>tWAgWceIA6y(d|{BWw_GNxk8%q2M3&vu~S(R&_2|N5O10qt8Oa64f^N
zn1W~3`Jrzl^r}-=9}#dsZMb&N0I#b*Z!VCqMtyT<8S1Qb6<k-))4Q9NOGcRY8)zsU
H#Wwx}K`8;#

diff --git a/src/fock_state_circuit/nodes/__pycache__/bridge_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/bridge_nodes.cpython-312.pyc
index 23ce811955a44e9890f85bdbb6a1d6de89fda3ea..6a2d5d22d03273b8ba0a813c0de06b0249b52760 100644
GIT binary patch
delta 63
zcmX@Z|BH|3G%qg~0}xobf6dy+<IAdIq+gU;kgs1{l&qhYpPU_ET#{Il8lRk5lw6uw
RqMw(al3J|4`8?}iMgW4B79aos

delta 154
zcmeyxcZQ$mG%qg~0}yl^iA~$c<I7s#l57<dTAW%`9Fvz*X=!O;Y98aCm+DfKS(d7x
zs}PWpnUh&i91|R_5Kxq#m6}{q9OIr@;!&F9oRgoITCD4rS{~pW<CdSC9bA%FlIomU
xlw6uwVrXCxQ(TlBlLi!zF9u1(Cqran^72zsi(`_CGE>r1<MZ-2x3PX<1OP1_I8guq

diff --git a/src/fock_state_circuit/nodes/__pycache__/classical_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/classical_nodes.cpython-312.pyc
index 97c228b34e8737aba8ff5e3629863da55ff375f2..e14ca99d91276e5a64ddbe46489498196d3a6749 100644
GIT binary patch
delta 559
zcmX@Dds~<HG%qg~0}yBz{m;tS$ZNx+Vya)1T9B__T$HSzmY<v*UtE${k{X|!S(IFw
zS)!kppORXvzj;3oJ0p`8<Kz>(HuWwH{Vd5$=?uwCv9b&dwJa%&H9&p^Q??WXLj_|I
zKO;j8Llz6j5>$}Q#K4fpl+47)z{4<+sYjj#XhJQ^YDS2vbf#L?5@wi=8djKi5qAkY
zOf-cFC|VEZH8G|zw=mSQ)i9^9WNR=m6ftEo)H0{ArZdzqrLd(lf^a%R3VRAi3g;Y-
z8s;jXA+^jvhjGFTL(nyBHB2>(HOy<cRzsc5$WRIN5+m4w<qVqKi64P(R|rlmDOM=k
ze1z{66KfGrfMN4G!OM)?thbnRQuA&xC+1a7?h%$z=X9+|PAw?O%+D*511i#FFOmUL
zMJgad6+}pa2=&S5g+*CGUQ?L-LfD`2*klV4d8MG@YXT()$|nTQP`@VXw7})Miql0E
zrz@gPmjs<I36xysDV>}y(kS@zlPQB>DPu7!Q2PQUCjqX>Z$)Go^(J$Rs>thsOb6Qo
zW`Ql!2Z<Sg2*b&KqE3vulP8LPlQIVh$b$%AJTm;^u*uC&Da}c>E3%rrP)rK|j`w_L

delta 538
zcmcbuds>(GG%qg~0}#|6iA{6g$ZNw>-=1t06Iz^FR2-9+Q)y{wVQL=ZpO@-Vlv$Rl
zpsNs&k(rZOP#hB+t`Ja^pOu<iQXJ!+S>jQe<eZbAms+grms%d+9OIUsoE=<}Sd!|T
zS(IFwSz>5l5K~-~9FqnVk1qyE#3w^!V)F7+Qj24fa}tY-Gm{f@CYSO2V|v3dxs2DQ
zel;V=X$%ZC3|TA?7BZO~!@!WvRLfGr4il|mf$1pXF5!fUrZB=pn;27=S{Q0sYnW4*
zvo#nPikLDPYME15(iv))QdrX&K{%Zug)N0Wg<}p!jVW^#(CAubp!M7^!w_^0YYkHk
zV-52f&ec%IF)~y#YjSN~!uO47^L)X}jNELum~&F|ZZYR3R!puHmQiO;%&WY`=~|JT
zT2PXipI0OYG)<GONCrq1selMo5Ft7FfUqbF8<08qmasqL+R0iX@&W>emwAjfq+B-(
zxd=o&A(OL38d;0vL5lv0$TI3rmKIf!*N2+{W=Vp$1|Y%^L>Ntu6Ln(Lo4io;o0J7e
b0HnJ}7D)W!u*uC&Da}c>E3%%vQA`T}%gBY#

diff --git a/src/fock_state_circuit/nodes/__pycache__/controlled_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/controlled_nodes.cpython-312.pyc
index b56431ce6016ab96d755073939be172b3f88548f..1be9df4ab6631c6596ccbe9c7f5e164504435d66 100644
GIT binary patch
delta 1265
zcma)4O-vI}5Pt9NZht9T%0jh(K#B<wu_nlmL4kt&7$gu5Acz6dSISRm&9*3zZ7@bX
z5k>c)2M%&ECK40Vi+aMd9$Fw^3^x<KnM#NW9MpLWg@$NklQ%Ov^X8j*^UbT8w{?~e
z7K;hNS0eu&{qoxK&EUU}5qg3sR)~j8k}(HD@^J-?vP*})F@jLY9_Es6N?t-P`|e<j
z{_Y1{e1NN-HQHwmqj3K~N%1Qj<;RMlGctlA92FGogMNLO>fq@2jsdihny49c8XU{K
zS>dMj2r?8*v6io+>1ln?K!lG70iI&@ow1UGpt@yrV?J78THy3D#L>=0wH;?gzgyaH
zv`)++MHMdDdn4!y$sX5G&@<K_3J-?8{hkroGcgi&1%lKYa;fo*y94zwliMg!jI0?k
zseD!Jdc&_*b;YZ?mc_0OTTU$Z+KR0&me!ZxkhL49dOnHPm~?toY<&@4ceTb{t;=Go
z7VlZH^~TbAS;iF{y=TL?GNG{+-kU!{3a@ZO<Pv(Q^AI2Mkn6edNF7Wc{&!iO#IlIh
zh0J4&fB=w<(IYZ@f``iyU6O*3IV@<5f=Hz|r4S7M2!#-=kS>XIpxFw|9I1FJ`$7u)
z0%ISzC+x*O^4|>*v<=wHiRhuNlg5L7l9r-hOi#`rVxS_ms&i7|V8*l==76bfo+zBc
zL%Ga(E@GsTVpI$?OA%=Hybv(~sF*}L(28l%p2Wmxif0pNv%Uo~X+?iYEdtLLPHlAb
zsm~owZqV;nKRSxAS^eP{c7E1-h6e)yuU|d^m*f&APBBphA_U!`0#(i#n3>YHZmR-W
zGh>~h1VT4)Hv!d&uach#Nj+rAH|Kt8Uz6O=&aFG$ai<&1O)av8khPbjZsLY$i*<}b
z`Z#W6C>^*-Lun>U&ATYI45c>itX-380mUda69&^l)U4dE`P-XqnAP0g<Pk))K4%LX
z&KTaC3LDA{kMr_zlUk5hUDm{&QqP2DHSAmE`&KElnwe-};<EZ6uO2r><9XTG(at>8
WOq>U?W4JILq!WH`johi?{L()n%@3Ub

delta 1028
zcmaizO-vI(6vuaVyZzd33zdSlSZh>*HVsvRf*{ehP%Z@wnjTmKxU<wkX?1t2g0o^g
z;du_mqzAm2l$e-$@#evs9=7FBW4L=V@!-jmGyQ;ui!Yh~ynQq8zq9+>{dDvFr1(`7
zoeT;6%e~cCAH<*biAlgPuNlN5W{oZ!i}eJ<sDjS5%Mg^wei|<U0(jZcw|#sE+p&X#
z-1;DKV6%+DK??#IfY=OxJQ>#3u#wpg9neW;fecqkK-`v%Asq-nvC(gZZiyuoi^1nD
zP(;As4GXd$KEq<SGt7xl#1qb2fU7)rzUA1zH}D+rRmR;Zz^kN>sqA<H?Dmd)UAn6&
zswU-gn`2|6BiE$4ypm9}kCjj)H2)x*%Rbbkg>-0MEvzZBu1U$PK2y9O&lU2D7MWF^
z%*Unag1o+<ujooVtIEZ!emNSIG*y;XNqtG93rliyMambTqDgWgud9VzPQhmPv#6K6
zz8B2zLB<t%r`Ly4)uB{PNF8_sX8+>8S2A7Fcj4SFtPjMh1F@PAtCYO}$a(`3)n<@K
z=gRcKNDy$Xta;tk7C63L>jc-~LvXZw@KVpo7R#fiPL_NJOP;bMBw2cp4EtZ6e1j+7
z>@lq5$d2~Gj%H--+7sI!k70vu=)pnX*;Ln-z%Z~IdP^+gkcHgtM2R!(um{<Z4f+rd
zdrQ3GAf}!pvv!6Ydwp$Bz-)4rUEd6kfB6@2JTS;@tUSf}z<Ik<9VQJw{P>Z@k3R;I
zr_><1R>M>-Q5hwo(LV<V`<LSv8W8_nWn3Q96E&|a><f3y^kO|-tfq@Kq1cJ@KyaI$
zi)J{!FC;$e^`u-)$~8g8Wv?HHPJiRoaq21r&wwc$4vr5`(c8tSG_v?%HgcFnXf{nH
nNo5AV3C2L8auDnV{#ja~mg*RhzxIiZ0xaf~N%b~%g(Cj|OC0F*

diff --git a/src/fock_state_circuit/nodes/__pycache__/custom_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/custom_nodes.cpython-312.pyc
index 90eb2e5c74ce9e5d39c9d4cd213e59dcac844fcc..965944da9cbd6884ed7484d0a0b5975c99c4201a 100644
GIT binary patch
delta 1488
zcmb7^O>7%Q6vub$^?Kv=N8;do)ggAshmA=#AcG=PTGA41TIBQt#dRDLIcvLh?5yMU
zCb7dBw?Uvv<U;2F<%Bp@>Y+kQ4u}J&LIM>iE;%%{Dul!VaRaFbIKjNNO`<j&*u&5N
zH}huR$2@uaFLe7)Wck)&F;V36Nq;Y0|HLvqF!T&BrB?EMQ4;ucUdS#K<%FDC5Hgam
znvr=ipG*~b^_zhjjXe13&~xZ1TpQ}`byC#4j-o1t3ZpPdU6$x#yTT|GUYUH%pPeTr
z+B%ffSLm(BX-d?AQfP^jjSwBaBz+w<)FvXkMsjTrUK_TtZH-k5zZiB{<)#lsDb$h~
zcg*zRTf-Ivs-I(<p45`{%E*Abqh*3?OYi+Ib&^A!_=ia&wl0{);~zImFjYADe;w_K
zuQ!jHD;C+&iXeC6+aquJdRq40?*>CrS&!C|xZEm_B#o8P<9p@Kj5=tgt!l$RkA98%
z)oY$@nzKo6a!p;oky%lf$KF9`9X}X<*1y}?`@z(ez(-xz{C9o9JHFtKJGkp~y*K@b
zL1%IQ&Qgxv%hUI`_WSljHRrh<d$eYbs*8LS8ERv(S{#2d@tJAJ6tY>r;w>SYy7}~P
zEb}r6Bu(K$;0W^y$PnHR#L!8#<N41K%Hi)1pK*j>UE6el$^i<h{{;_cp9LKu@Y<vV
z=tV4sx)|+*fZq;{wAYP7UX-PLPC5zuS^Q<FALZ1aLMb${3@ajF1t1Z48EF{w20**U
z1*#ddc;Xj5n#YlFfFaXkC)4xYe2;n~Eb3^5ty)$0>H9RZ3J2COpX%qxgHh5XpoD$1
zrLMYuIU^DzO42y24g!wiPiF_?V<5F=1VK#@keUw4<pk`%0njRX6;v2712_dZ4LAef
z0cT0kPW)Qr3FKEx5doRxyFuYjQ23D-@Qn+D96Z<Djy+a0$5dN1-Fz;!Ja<z^sy!SJ
z=r$3yzMfZqjc@ApZ3?UA5;yhepc?ydA(g4V2~lB$q$7YT;38mO)x@l`nPf_oGjds)
z0@ElIGvfJNN;(d{F9D_j|MsR%7YmY1{F3?AMdG*Ds*e4w!qK$T@lc!2LI56z$GzR;
zpC*$RA88l9m0o9AnxZaJ4?MUUIi|jQzVE<Z2|M;=&74&4T?pt5HSf9FoZ6jT;JAJB
zgfFd?+ZQ2u7eIT4f@)g7gis7`m3-A0EMEnDNZ@4~!}dNbXrrzv7nqNDYO|^BYXkb9
xo~FhWKje9t+*vo6)46;?ZX_4O$I4GOlHGR~R?4$X5fV_;-SU<W9mOf-)ITCAVr&2a

delta 1601
zcma)+Urbw79LMjuy_C{&p<7cFhEkA1nSqrDa5Mx7e@bB+bmgz}LPKwFN1@z1&b>f8
zT05OFnD8)j9;Uu+dm)(*)0@Q@eOfeoFmb?0rj<8iVvI3re9#x>`Q6eCaYoO>r{DYg
z{mwbR^E<!Oul_)H|3v(kJa1*_c>HlBcJo8Nzb5;p=o7|O39EvfNOg3aZhJ`>k)=Ky
zUy)qRuHale5x=Agqm!;6R^}y9Q-y)J7Fdq-CKOpxn}?;<V6Wg;#D!69R+D<;SX_>4
ztzNI7Vo``udsqcWSj>9_S&2%jATFz#vKW>XJzI01vvzU}bDfEz3`cHUc%I1h<*1#!
zR$rNIU>JdAm`qW|tQA4xFw#Y7^KEK{5oH&sQtfGTnwdA}ZHKwgN4;pn9W`aR4G+i2
zET}YxZCXhoF3R0Td5swAE!Ip04_U7-BX)PW#dcsJirYy#-8?EI52jD>2h(Uu%sg1C
zxEQNhNpQHDeBkDJM`0bqT|47IPU7`fk&ziI+5ZoJuz|NdQ<$$+lDUSfL~L}B{RSS{
zj2%3Ut+j=`nEC2L?33SYdAfvLZoH3b^d8S$&ThxG)R{9~j$g`|7UQzcHot|?8hN{=
ztz*woac%kC*h7bV6YV&fHYe^xAGL?J+d~hVLtj_B-s%6fh~;a4u`tfc_5N>c_PtW)
zRz+yHbX5PX<rTzjhPS#%(EEw4#TuwA`@DmvB;NW8{bcKo#XLZ_#XW@eb(x1i4idlb
zRdiOr>H8F+MKaSFat?ysaJoP(0<iu?r^j}D67&>BQ#p=+7Rlp*3N%Pg1R9)pfm(9K
zq9SWpN#L{KPmuG0=g^|A1SI5@!J+_`04hb38M{HR0gR1ZpbqxrhQ2eQKJvpkpP9D9
z@k}w96`s|*hh>(_mZdHFN5MU=Wd$az0@?u`0C-p!E(DhXl7Q2I6!~mCc?`cyHLd$>
z61RZ0jtouIMf@O}0Y;Gmpu80HtWV4F4EWOk<D}<6jR1mx^MDXw6mSYKMvGBRzMpsj
zdG(S>5m}>;{E=;cWam_btW4Ee;2y_zOULzFQ?dL#>SY)1v9to)f{#TE86F-WKTdn}
z^z<7hlO<iEquG0=rvHETpQ2Z@S;z#M4|f5e68H)rUkOm%6gf*gD#==0OW_{)EEd(c
zd@&(m`iL3a5BPh%a-6z^H5wOHmLoLoN%@W)E+6?>s<s~~-59Bgwb_rBjf7*X7LNWK
zU15Ir5c_10?z&j@)S6B2md@x)b3T^atl9GEcjm)3+o4_~RVyjG2pPKo##Lbb*2?P$
z3B;XzF)M)iJ;3`EO_qEkUI&Bm3=HLh&woT3eQWrQ=Ka@5YreyeM6S~{b4BDq(nd4+
dHhD6i<)KB0Gc{q>VCRg!l-giXH`!kc{sqm4fl>ef

diff --git a/src/fock_state_circuit/nodes/__pycache__/measurement_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/measurement_nodes.cpython-312.pyc
index 2d4254d70688f2a0733ab4c2b09d04a77b22b2e6..f30e7f97e79f591c0f2f69827ef133e66c33a3a4 100644
GIT binary patch
delta 63
zcmaDRIYpA^G%qg~0}xobf6dy+6V0h&u3wZ|kgs1{l&qhYpPU_ET#{Il8lRk5lw6uw
RqMw(al3J|4`7S3XGXQt)6(9fr

delta 153
zcmbOt`Am}MG%qg~0}#X>iA~$c6U|xQnQRpkTAW%`9Fvz*X=!O;Y98aCm+DfKS(d7x
zs}PWpnUh&i91|R_5Kxq#m6}{q9OIr@;!&F9oRgoITCD4rS{~pW<CdSC9bA%FlIomU
wlw6uwVrXCxQ(TlBlLi!zF9u1(Cqran^72zsi(_(A6N^iWQgc%mPvK++0LT9~F#rGn

diff --git a/src/fock_state_circuit/nodes/__pycache__/optical_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/optical_nodes.cpython-312.pyc
index 403b9fc39061ac77033686d36aa4d83a38b008ab..360437bb59c3a59bedf68db01e27d80225970ad5 100644
GIT binary patch
delta 1701
zcmbW1ZA@EL7{~AF?fVLC7YfLzkgap;;@a_6nSd16K_#Vb8Q{pEwQtZO^yRdq5Q~T!
zvn4Z5pO5?C%#s;oOEfoeSqw2|CYmfJ@L_IgV&scU_@eb?G2zQR&$$R#7frk$e&>Im
z`<&<e&*^je-OuFwFQoELMTK5qPal0W`PI9hR=#?`*5ahGbjq2f5$AX+@=7q93*}<L
zNP<RY5;<ow6^&(`(xU^%^<*55J8tTul^$VipCHU@q2#FDU(i0m>J=37IH6c3SYHr`
zaM7w13c{oYngUgjj+&|p%7Xg3aar|O!uChE(^9o7K1b}P&}S?S7VD~|1*b=CSW-|0
zn?`jEaJ#LCC_&}2X{eRG7i-{$aE-#Q1CQ&7+Kp*FkaO*?D5?_4Xlyo%lN#Z&YlQgW
zq3g@$bxYl^0@0<(`IGkzrhA5tHABa0*T6TiwXVU{;qldpskPzh)z0KyL#iZV-nw-2
z8HbW|NDn$b6p0UB^VQTbN2hS9dWI#Do<@yFOZ{-Gdz1uW(^n5GNB2R=TQ4QtBcjcR
zUk@P;BkT+tT2yBcgNPw`aKcL#C8wuTsUE<{i;(g5k*m@z?<b<=97b%2gNUaPqs&ch
z4VGXo#xNqgKs5w6d_MBEwCTGlwm)_<X8qj~J&Q4JDJa*td&*BX*mllH`O_bXL@zZA
zT@&}ByCo$xV$O4jZn$^WNm?b%NI*34BFz})yGX*!Xe)V1`grt?s{I6p(PU8-%7v26
zMP)WabF>x1eg?Z{cU6qK5j}7t+(10=ZP-p`r9Z+4Rb(2h@rI-F>X?GRg<Yi2qvorm
zFtBCvBu0B75g#H~;EVW*B0%81fok|E@+2f3I`}*>r;nPpdRr~`wtB0#`S>rrZ8R&d
zo0mnl0(;0#*S|h#HtveE#@;JknQT+`cd<M=%fQ_2*u`$98H{cnf$SNhxHZ~`@FHGd
z$Z8lG!I%nYZnMjgJx1Oiu)u}X(*J01Xh~0ydAOWzvn*hJ6Jj1=<_dmHAC6FT&H5gj
zb^|xNb0__F14Xl&#@tMLDt0cB%st)6Fh+YZ?`?z|!E5$xE55Boe0>A)Cgd|#J9p5C
z?_BX~#^?PbdnHplRhC_z!^*IhVCN&d^|J$iT#8n1VqUC!d+G8_=%LmH-fv}zZk+NT
zdt)ig37#Q+i@|T#@*|TEXXlv8*TiX-qBa;zhNfe|U=hBjon8G{h5zRaqZ&bsAzns=
z5pe`w0Nzp5gK7>@kcP7=;^`$S<9(N>B%)YnLWQEF7Mffo4VPM>rM;x%QZF29E$!jb
zARKZ0R>9?<^g%A5IMl=nb@rD;Hm<W##YR@f^=wHat6tJie%CaCEgvTr;hlUfxdhkp
T4d&z?V!YJ;P{5H^Gi!eWC$o{g

delta 1535
zcma)5T}&KR6rRiMACzSm1s2OsH<kihWdVg{OK6vNx3EFjvIUCBz`6_rJFtJ;*)3G6
z*ecP)m^L{NebQJTG@GK;Oj3PmQj<QI_~c7N8e{sRrin?Hs4*HN-gB2|+w6n$@ZE3D
z{qA?pJ#*&m9dhRZsrbffEfd&t=Jw3Om+yXFv3_u4Q|^@}G=*wXGJfvJ5pQ>obSkL?
zsCrg$wmC;*YFtfg(%7VPl%|#xIipE~Y9^SS^T$(3MQaNwtD}BtASEx4Wuh6yuTnXy
zW;#1MB#p|_0*gm9+=$499VwZbS2QV=&Zu%U9!csq4tA80X85V?3%ESrYCmr{Z`!K3
zX2dE5fe0-46tuTjRXr3tM_jh(4JLsL`)l+>d%y%YyN?qQcDtME?m80cT4Yg4DpZvt
zR9T2eGBldh5-tn)J%>#`W=s1)^E_?TER4g4o+;7*e|f$l+xmkZw}E)|#=ff}8G>8B
z{f-dI>lx%kdI~xAj}F6*Pa={Y>faKZhA`5C(2C$<a37s%7~wR+7&Hcg<TZUU&}T5c
zfRPc%1qaCo`cCjOv3d$4O$dh&nh{=N=^eG)gQcFvP$4z4G5BG4nB0a?f4v?Wc}w&b
zbwK5#b<r~z<8{pxe5~OR`4N2}G}5DA4}UBYvpzZTk@y6bnKMuu>W(5DgR3zIG*8u%
zPTe;(E84l)bGXH?6o*fwF4K64AZTwwH0;p-maZGg3HWrb&N|FgF7uuld^`6f+@Gr>
zelW@|lGWSgLq@U;6R`trg-qy)O?Qd(IPwz+2@LEN6u`hqR?q}_4}Oo`ENLWQpYMWt
zcPTuxR1Ujpf=y0~)v#s1CNeF1_GamiC41FFF*Zw;(eIdq&C+Q-wfw!<dzOhGNu0uf
zsZe|&F$?he=m4@o2AYWhTuIHEZeas<Sp#aIGMyva@N;^Rti$+9clE2Nwj-<~RB{II
zue6rtN+>%f&{Ft%r6GVx{<LMX>9{hjCNs}E8O+d=DA+{cGt4de@s%@d7u`U39pM7F
zXoHI<bmBW_e3*-?Q?z#DG4<n)%!ajvmx&N!-=dhrQkWKQcI@BO#gxXqJEMp>Zm{cf
z-}0gk|L4-|I4kiY8ot4;ER=sR-nIYwSFD)oyRfMZ91Y@G{-cj0n?#sKm_>LQVF3Y$
zk>X%bKf)@)E4n3PBmqA$+O|D`yolr;BSs{7lhEnOn>n=z&wKNwoR$e4UHN^SmJ5g7
zzgRg9>EY~bNsF5q^$q1kw%%i_k*&<e)0;OJ*Z>(Kzna}}XEjFN0pD6Jxdbn+9jJ`$
PBeu)l-vnG~4J+**ut0Fv

diff --git a/src/fock_state_circuit/nodes/__pycache__/quantum_operator_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/quantum_operator_nodes.cpython-312.pyc
index 0bd99ce4a2ac9a27b5a79681360aaf4bb0fa0075..fadddf7836b6cd0e456d1f428c4ad6571b07c091 100644
GIT binary patch
delta 813
zcma)2&1(}u6n`_>-E5NP(_kdFX=8fO`Vp}z9xNfGF+G+Z{H&C)n{1P8lXiD&qfCsb
zcq)D{q8^HPHwcoGw~9v*Q-lhoe}sf0^rSOsw-p3&V1B<h@6G$Yk4L%J6TZ)0uN&Ao
zZu}~r8F}yfAPiqj8in~<(lnH0v8GgJOe=2{W|WelES9WfwWb!#WP40BJQtoLfR|t~
z+&M%bjv^k1Cz66SQ1H!ufQF<Z!rpaUi2~G-;YUCpI}Q$1FhCV67{N2V92400hV*t<
z%A}`)k>(%5h~WPbCQz2_X7>4?l{}Vc|5P1z{riZBYE!5j1u$?48lox^)`Eulgc?>Q
z4XMuED>HVfZq>uMk6rJIhlqEaY;sZcJ%omnIC(B{5J3}EKNAkD2o0IF>aq*(Gm%?C
zyNM`*+XCMY-^>z2+d39%e+gzq(O?^db|~^ra^!WLej3QiE@PDWHllPP9Hk?%f@{O6
z%;u}rf=*xfW3&}pYNptZ@4?o22ps54nLhw-p(~it6uOFk0)(&ORqbi|Rb)M!eslJF
zBE6PKGqc-^YykwW<IT|FPXCQ>q3KTF^rk=5nJlyPIh5rplju@UC5KmYJ1Qxzl3Gio
z*25{L;tJ<5mzlt{IM^E8?k*x;bGs`5i<lnP{&GA6@<(?(Bg!-~^x)hA^BEaFmsr$m
zdCM5*4uiu94s#q%a;S2sahRuHhmMT)GH3a_XO;G>@}Biq-f%pJ^tK-FAXKMgi9_fv
Iy_`7x8wXIgDF6Tf

delta 671
zcmbQ|(dN!~nwOW00SLC4=A^yS+{m|+rM@rODkiizwWv5IFQ?Md(!$g{#y>CBr6{v3
zRY6xFAR{v;v!FO8I9ws1C_gJTxuiJ8J+s84G|4$9KQFad*Dtj^z&XY(KRG+NB(Wsb
zIkPCaG_%Cez#yi$C^;q#C>~!7l88@+$i(F3r=%9g6qY9Dm6Ybj=WqVPlF2P2!N|Zc
zouLFsLO=~m4fARy2zzoLvzTGF3j;$DcL^&@K?>t)sNyC@ByEf}Oi*o;1q3DP(KRt4
zG}W-CFlTE34Q0w?sAWxIsR3$DX9C%q&XmHM&X~dm#q2<uBZV`C3rKSVG0z<C8rCXy
z29Pe^7KU238a9yL8s-|7be0r8pt<~WSZdj87_vAg2TBPGvab<<*~-XJ$*d{3`MaPi
z>t;vsb!^PJi4~JS$+|LfOtz3~<1Yd_hoMLxNECAbiOJXHTAg1584V0y%ouq1FYp^&
zFbclR9daQ&`g(Zj#qiQg+@*Jfq%X)sUlxkFz!P(ao9_a@<^^r%%iJypO0K&nUvy8t
z#GO3(iToPYB2AEq>lK<!3xJFwXCQHlH7zGUv7`tXNDM`VAVLR3<bViW5RnTa@<2rX
z<a9+PW3bK)5FgCSgtM~XEDU{n6x|uKH?t^RV3aBcsRB8pNF7N0;;_lhPbtkwwJWNf
I{7%^b0Q4iSUH||9

diff --git a/src/fock_state_circuit/nodes/__pycache__/spectral_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/spectral_nodes.cpython-312.pyc
index 1c52a89ac6f78d74a66fb9380d485fce6082c4ae..58626e2ca0713d4e3dd49b71e9247fda67aec4a5 100644
GIT binary patch
delta 63
zcmdm#_8^t#G%qg~0}xobf6dy+b6G^iM87DtAYZ?@C|N%(KRG+TxFoS8H9k4BD7iGV
RL_aS-CAC<8bExQDSpc_q7Q+Al

delta 154
zcmaEmx+#t4G%qg~0}z~B5tp`+=dwtBTe4M5XmM&$aZFxLrKP2Xsd<clUaCt`W?8C&
zu0lXYW=>{7aZGTyLO@Y|R%&udag2LriAQOYb54F<YO$_gYI%Tjj9Y$kc5q2zNvd;Z
wQF3W!iJ^f(OmR_iOd3!;z8EACpA3<S$;(ekEsiNJ02)=4m=nL5NA!v;0Ne#RGXMYp

diff --git a/src/fock_state_circuit/nodes/__pycache__/superquantum_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/superquantum_nodes.cpython-312.pyc
index 59f4eac47109007caadfde76c0febba16bb6cc42..80c460758067d7821c9ecc525171b3762708d146 100644
GIT binary patch
delta 63
zcmdm7^RSxdG%qg~0}xobf6dy+vr|yTLcb`rAYZ?@C|N%(KRG+TxFoS8H9k4BD7iGV
RL_aS-CAC<8v$fC<Z2-OQ7UTc`

delta 154
zcmaD@y}5?xG%qg~0}xcbk4@Xivs19XE7>Y0v^ce>I3_Qr($dnx)I7#NFV&?evn*9X
zS0NxHGbgj4I3_q;A)qKfD>b>KIL1A*#G^FHIVV3awOH3LwLHK%#w|ZNJGdmVB-J^y
xD7iGV#L&PXrno3MCJiVaUks9nPlm|E<mIQN7RMBq7NiyxmL}$H{v`Nb8vy5DI&1&{

diff --git a/src/fock_state_circuit/nodes/nodelist/__pycache__/node_list.cpython-312.pyc b/src/fock_state_circuit/nodes/nodelist/__pycache__/node_list.cpython-312.pyc
index 69765c02984fa702bda246a724faf1f1fad67e67..ee626eda9e8643a60d115e1c85c7494744bcdee7 100644
GIT binary patch
delta 425
zcmaDJ^CX7%G%qg~0}%Yk`JeT2Bkw8+T?_r9)Pj8d;-X~zwEX1k_~MeplGOO*%%bGd
z%o6>){FKyUFqxBCT%y0(OmaF0<D<#v6z?$>PhP9EKqZS4WE?7}VOz}z5vgUbVXk4H
z?5`}z$i6vKIhIY1wMZW*Riq3e)Io$QkhsN~nU|7Up~*4%u4ba-Ey05P;>?oF{Ji+G
z)S{Bi<iwm}4xlQ9$<A6ujE$4GY1MLSFbGIr;E?*FI@w0si&Fx^`yf8KUt60~1j-Yf
zd{|pG`hkl6brsW#DyA3A+%BuQUl35d;plV0H}0Zi{Dq|43wik$lL{^f*iGP`;W&|R
z0rv$R+lvZzAGo0AvoZ+FT#$*pEEIKtC+g=XQwDK&#$r~WV`gwV>r6J(G2jjbdBPk-
zgig-UQD6+4+^eG}<_8q`#R&?t=*+y5*rG^~g6PQ?b(|POCX49KV>Ft)S+|=pX|lbZ
SB!3_?qx2^R5Lx5`R0jZIH-FOr

delta 428
zcmaD7^E`(4G%qg~0}#BdNKCWa$h%6SzAM=(CbT%Us5mAsr_$2W!qhy*KQGm#D6=e8
zL02IlBQqznpg1NtTp^$+KPxr4q&UVsv&5q`$vG!KFSS_LFSR_tImRtNIXk!{u_V<w
zvnaVVv&7KAAf~t|IVKG#9$yTSh);&d#N_3tqyp^%k~x{hB{7?yNKEHoJTSRN@g8H+
z<Y=V@Of_ti<&`BF**04$$FhmD6zKz<Tcivk)Io$QkkDkGyhSsSwU`~qo~)-;#F#&M
zp;j%Y3WI?31rDh%ij&o~y*Nc6ybr>YtF*N_1)x0M$?LRLJ#RR8U+{^!=n#7$A^Sp3
z?!|<>3j($ixMw&{<XgafLC5Bzg6#(`sA;SW!ZH_RA}<R?UEqoO`N@z$+?}zQ6=?Ge
zPG{-KdO8N&!60{;gNWeCnK}xLA(Ojw^u&CD0>3yxo{Y}SD~T-%2Puf0d``!SF=(=&
f?mR|=$s2UL851Vk=t=VXGc!tmVgQjvE<kkvYO{uR

diff --git a/src/fock_state_circuit/nodes/nodelist/__pycache__/optical_values_component_names.cpython-312.pyc b/src/fock_state_circuit/nodes/nodelist/__pycache__/optical_values_component_names.cpython-312.pyc
index 59f172f85ce5c54320f510e2f788800a53a3ba34..4be517e1b88436859f8af3fa312697df69f0a99f 100644
GIT binary patch
delta 5211
zcmb_feNa@_6@T~b+ht{8-{LL{B7ucP<7xt;1Z7o-f`S^L!uk;+uE=}Pg=H7sTRuc^
zF)<yjHqqQpO(ruPO*#$6KZ>Q(rkzO#V<vH$X1eRrEMaV>buyjlA8l7@o3Veyo^y9s
z1kH3h(`7jK^WAgKz2}_YIq#n4zkH21ev+P^%E9lL|9+P|bk&%iL*ApgIpsl}oFXle
zQ>7GH+o6+EPYNvt$sh|b)^`X}8jRDV^pjjmI?Nb5c*zJeq9nps_=O;uU~GcE0Baf0
z&ybeF?xm6$s9CZAwIp^6usaiWWG2o}fw5H&6V{_yj_k=_=DeLt&Q7*&2ojy7J<Yj|
zlhYdo@^pQPBKP`BRHeP7!{6TRRs(GT+1>6@+WS3$5}#j^RYtuYHBdtLJAXh#`Zwnf
z4YQ)V-QUyel>;*U&ZZ{vG5vhgR7$@6lrXK&rLS);CqJgY+x#{C)0Qm56&~+~;}qv<
zdiA)KnCa~;E9g(F&3u=c7Sxz&N#%WFrzKUp$RFr%)iz?F?^l%+rMo?<yS>fl_j%ge
zytBIgUI}DVvfw0#Mp=pn+9`RqMK=Ro^$Xhe?5n{)isq<T5EctA7KhgDnHHO7OqQr=
zUD&iPYN`mED&DIM?d}RWyQfWFwz4K{S`%Lnl{JU<wujbB(<b?rIV+UCA!6PbO53Ou
z!s)X{e{TS#a1XS3`(?FV1Cz<09y&Ol%ON1t1uj66D<k|BLQf3j>bf_8gez%AgGDcq
zZnzFLn~v34XiBxUsQVx&LXPqyTo<#U<j3(=;YWC1D!nsc(T{3Ih@|Nf;mRyaYq(d1
zcD|Eq=UX#4Zd4fIXkTAuP*?_^o#)S*1y~sst|Ub1Ud3_EFhkhvAm<Q<>ufHiU$%KV
zY=LjfHeXv0^i|gP`(#_cDoZwxkByJCsj$-FS8$}tw!~G~;#Xl)@O5|0a*id+vLJL7
zypLH;kH-h3ZAeMMxg|(e<ATuT_xO}N=sL8CN5r)fTr>I=NmgVjamxy5#;IB$HvB1O
z+_(nFaBel&9?0nnG=Si0ane$P%vAo2pM4j|826>Yc<Ok>kaw{tTDT=#xaFo{%ZKKv
zLy@hn(EbBAw;q^2=nftBMGpEy>fl!#JY7A1C*IuUxK<d=n6qcrltkA&cXQ2iZ{$rk
zwS->qM4Gxz8E3>NE-rm1>rz%|pY)kSzOiGxD7u=y(l2I)#g34^<K9h&tm;6BYYyu+
zeJU;A`Uxqg{I*@>ue5$!YmNX*%xcP@v%qMmyCRb|*6Y)fuh+~u2<_RvKKC*|D|o;K
zW_51%D3=MlK^0$_7VU6U#Gs?%HG$@$`CQF~-RF1H`iNK<(ibvAZhv5#u*m@bOoS$$
z-rt#%I`+>%!mjDnt=Y7y!Ae`J^T`tCqvxtc=O{l)9&e@+k0z$<AK}3;HDH<=51Qsi
zFij2EY&zPk<x!jMGUC}a-(a-?e1G;E(IoGJ@@Ji3+nP}U+<|i^H*h2L(#Fi3W^R!H
zl@AMGlL-6?FKf_A{!hX@`;EfT_1n!sVKDA>Ox{Ev{Bq%}Lp%JA4J{g@sV(kq;Cm2?
zeNvku*_c-p+g#wMfwm)FS&h3VdZgFy@AmjQZT-DA6<TlHlT}-rBHKDV-k_JcaVqnl
z1Zh)_cmhhBax{Lf4Vc&<%KH2P+mVFh2mCgS_w(Lg{NRKJmr@G1_m}(d1CO^sUwHxv
zb8~ckr2+|a__96NMPFBPfg~J$miT7Pc)r`;;hqN_bv8X2WEluO*88{66ZMv0-1`3k
zN2+cx=rJy)=h943Lw?whA2K|7tFHcr6m94XH*|(PJ>b?|WIMWbqG^QD9LMb>JNSQb
zoV}KxD!o`1wL8Oh=X<5Uw{HO_g2_-?e!Me-kg_%`uAQj4DQ=AM+<_q9&BLjyygclv
z<z4(Z|C5x<DWTS`&(?N_nxCJrL`!#sOLt5SL`oZOuI-Mj@=o_Cus1-qB4;1jhT=H3
z;Q&rKCrq1)Vmc0>O0<VXdq{7OX}CjtALF7RmwLWso=Y&??GN?%L*4#xYwu@k`yOT4
z7g?oDt3&YNFsVf@0aC|U)-je!oF&sN!SLQ)18RNm_S)`yajBr&$GQryJ_A>MHM_<r
zT+6rAWUtm;TW_r~n?6`#uF2MYP@Yp`*IhSRYw}FjSDK;!p;-&_ALeOm?34Ps<z!_s
zS^zp7!v<v?_SPdoqe)`<cDi$CHO~?H%Few4f-c=OR7RKY^6^R~{obw;UQ6h&cUegx
zeSdfvseG;8PCq(sfk2r`>vr!8Ugni8@X@T$Egw}C@OzGh#RO_J!g$!c2sLo$60jdN
z3s%QC$Q@oicKX<v(Rc<CVGr?W)I=L+QS%~nE^rVJS@=z>&q~Onr=JgG^CJY|J`Lg(
zVzCB8Cp}ydmv`r2daxe82GyC&S_tYrs^WmD%kj)+RzO5%sHh^d2k?g;HEda=2>U!8
zHNoRRliJ-MAG>z!`e?MaC0yGQsXZ7KTf-&Q<AI4o=Y;P|uUAGYtgFMO)e*5ZDz=Bk
z_J}Bl^zuCz&mrEvW!;*pTYwewTF+nn!-^UoR<tXH-Z_>_LCs>OrohxxSTsN-m0BcC
zKo%-j3*Mbmm+?O-GOvde7NtlWdqEGyHThBf1wxAHp+=iw`vb1!^mOB9k~#TNV=cd-
z6s936JruEU9}8HRtRyp(a-78sg~cSuIvbmwA-VMBri&ztu52z2J_&2H!V$mUs}$h2
z93)IrX8IWXSmF}rRE0w;5_~SD4#{pLXr=L6Vi(kcL&y%f%N#Sqcmjkug@U9L{#DF<
zPX@U=d>hf~V>>hktvFsC<Dj`=W=+W3JBPzqPMWr29Oj^zu*_i-%hhT-32w)BDl^{R
zD4S#Bn2~6MWLy*Du$>U*SbJB;Ywa<8s<!BLn1Lpit<h48%a*}wi|*=qZ3jWxNn(0h
z?OFxi>UHIj-_kR#hM-1HhcX6>AR`nhI$1BLbnqA!B#kU4${`aghcciL!ZJr>We)De
zf+@K-Jy950qzpM7zQxjKX`=Lb_*65LQOHvVg%Z?3!coDI`S!Q=E+<8FPj3!!O?rE4
zp&Eje#+^#9^p$B0icD|!t<6_#Ae4iTr>8RXRm^dd8E650N?EQugI4+$tykX6NK`#D
zdSm>VO6VPB8Tnw+pspiJ;Pe5gd>}tR(QBb+1DUilAiJ31=@}}rf+m5Nz-8Y0l&5f*
z4a6bDMR~{sVOAA@KwwCOxMFJS&(pnuVtq<$`d@}x=!uJ#u()DTp)=7i)eu_WJZ*A4
zQXAc<3^`k-O)t!t3qolH_wI_^>JD=6w!^Qc0jq0*wK_|G&1tR9)h~z*C<lv(3sPB}
z9ZBZ0E0g(KGpD4(g0cz8;wW83-yB@NaU4}J!}=I^>%S+lDX@_-|2h47=W=0ebK<7|
z4gu)%fo1eWotbI}Gv-SxmMPNOL1USN3>W^_yvqicZ$n|x4wOA~aL^t^w;i@L#!JF|
ztRgIq=On16+5pQCgbm_@jAX`H8Fe;<oefc^E9`Vdocp5o{a4pdluqpV(f09zx9i6D
zT-p_}?>|*Don~7A%X1p8=m23w(7V>HnJg&Ns-bf0E)-|+1@5M2hH~<*q7X(V1Un1s
z;gG%{Zk)A~*N0Nb1{R#Y5t0+8k5OoW>DN&*oKJp63x?l(6o(Bi_Oht`BZ4vfUApkb
z5PpAwqQ>DDM136mE=GI9LF59?$zmsil*PAzlf&kP%os%e>apAk!(w4XEDGt1lt*$4
zL+iubSX5rj4JQ{HL%cM8|FP^a;fjbWLi!cJZvW_|vi*2r2aupGCw-mqV!-n}%r5fv
z7W&lj<z$N19j_zhljn~cNfk3s1hQn@!fzKm9wN!Gb>X$N1>7E=BoAGuUj&Ot;iP74
zJD-KPvp|dhOep2l{bDKk4L$$jhG3S`ic^P>U=5}mM#5090DI{Bar|S@$3Soq>OF~D
z80xiQkAdJf;h!>qTaF;X#85em(Ls@tWEI}?Ef}3l;$V#?4R8>k3mQZ&XkxkP+QRWn
zNP+f_9}7D+#W)yGY38uGn@0fDbV3}|prPkqdRim^XgZ=@fn;S&M?Zb(KpkU`j2j#}
zru3{XaI_aHF9l;zTyF-@Ot^W8QQ&{;H~09Zey?1q4AGvG`FY2Al6Qwg`qeg_mnXI4
KF2@?C<$nMbku|vh

delta 4205
zcmb6c3rt(r_1))Z^Wxtl*nHwJVn`I?l>Z+Spak<-5(oqc2_^EVZ4wh=vS*V72V#<@
z3P@G6^-62CN?W^jD(yZcV%nlgQ%TZJ)w)gZ#c7?POscwc)3hHY(psiU-8t7l%4gAb
zk<UHv+;h)4_uO;OIoyAae`At2zi%?>IT*2h-u^d3*UTmxd4Z<e%8qaH3El*s*e`hX
zmxUg^*KnEZF?fx>1fXhxY67YeaG{^~ngKU?CEzf769G!z%>WaZxCP)&0*=kzxXc9j
zw!nANh}Dri^LyJX>Ey!9Sb2m{edQOC?|YoRT|u85><tW#R904$miHbE_*}C8jL)8H
zZ#&^1^q&s)c68g@<e>qdClu^$@`sv-pR6Ao3iyJ#t-iBu^}UTlo|7G+zL2lpFMEdl
zp~8ZK-k|L1?FYI$hzo8{e5E%q<n@6rfP?;EsFxNyzeCLQ*Us<Jk*WjaZThRKS^Dgr
zQsX7UaaXu2<autA(AkO<`pKR@&|4K2dZRim(NBH^%Qy%($qgjY%o+>5S#5cxsfLg&
z+FZMj+@rL1FVWKvYx9$J!>7GqgPaN*92z+ZCOL~b9`Dh`01f_@PCkCM@vbp3X3SHK
zc`;+DYAl_;pfvR>WykLrPq3A2)tDV$R|*a)?QSLi8+VL-_bjPOT6xq`p%^RVOb|wM
zUGI}zy6D<R{zzR7#|#D_YT)<aXFNUN%Aq?C*o<;=C;>=p(0`swp{HG<se=n4FB_wD
zygHfIHK))&H*Uj&(F;%MZQtgfNftN{KSoA5_ofwIZoo<ln=HlT<SsZ@%P9C`dF|os
z;;!;nH6D#0_8-gVxG~<#52RAkl}*xU`(7)p?n-GM<thJ6A*j%dX~uX^vgBlr3mp0%
z#Fl<VtaX!D1AoHPnk{s^E9Ie*45p-fBPHk*`g&bDx`SS8wq$G0g0*DHoF$weTSIkd
z>HUV{Naq~a`j;<ZI85>uIJcaJU>krr!4G%OE?@o{64Cdvh@b$MEf|RIp?>$nXbsBf
z-Z^1l$RCh10Cfl~YUW5_&NOs7<oEOq#^YMv468wb({h~MZl}eKj>w;oat>TK&fPbd
zCqgl)P?ZX!hN5Y2tgKlrYrbu0hPZh_h@};)X~j`XiDE3d|Mk}QLa~D<)PpCKfxu@R
zcak*npRP=8@b!S>_K_z3UmUlinV+qD$ramCrS7P@UiZO{ngvFj5blWf$X$aJGvug-
zoN3{<p=6%tp5Wa)NPL11qC}kFt0=_JgFwEUpU(P4_O)!~c<4jtuyV|Ey(CuErdG8n
z?cLF;Be$Ky(V{cJd5$#T?&1ct12#{%J}~CZ3tS)XLvell2rk1EVba4Wy^TNiP`Wxi
zqMRL3hDX%n;SZhXH_&uGS~Lo~E|C39(|)EY44Up3^X^NQZ@FUDGSylZmC6;dd~v~q
zepvk2IlLIR2+;F@)^J5(K3E2qa3ej<RV&=ISsOO#Zsw&l2#L1@J>a*pZ4Fl4J0zt+
zN_;0(5BR%+7U=Iv+6L>)@AhvcJ9A)rJd7|-<}|1L0RVmHSnMpP5GR#d>cL3b+0sQa
z=^HIS6kaEC5^ZnIFZmpUzzkrV`$)3Hq)b)HRK!e{BRnh53f6h}vHWnDqi=WGsL~)3
zLVsG9`rK$bU1&WL0d1AQ!{T{PIO!V+%6s8Eh(heL1(zBDge~<$r%ppo4uo3!PWgg)
z$oT~_+5vzSqVcL}()5gU7tO(lj7epx1m3Jr#CY!7&@Rn`4GfEPaB>5PU1ggVp4qAO
z#x(<9*t*6z#!BD_kFc&>mCB=1r6N|Y^P2IIZri<qb#e`uvCeTd^snu<$8?Xjqe7J`
zqLNb)opR<(%c189$)TTg*bPpU$i(K-#Lhj$Fw@f6#P2Oazi3%%VOd1RP-IC&cEp#G
zkdO;t&b*vU&h!lq`+_W)KxKOWa4AWmr28dep+D%(i|j;R;mM()LD`ObZ3rOQb25w5
z0>oI1)FM`o07F7X*T*evMXVjb>l|}tJZ^MIMQ|K`!5;&-%zeuD5v@4isL^Yssrq>i
zrrP%`Y*q$OKfv$#G`+TRiqR^ktw^ezPb1n0nbOR2I8O@?*u0=KXe;Jz^fyPcB#pLm
zL9fv|5me3V>6b@#!JFB2G=t32rlYM9y-(*8eF^<MCU39CXM(Q909}jOYh)dciFG(;
zfSbL@i@nk^uK{=^>~Oq^J_GE<4rnucTNvj<sY%dHX?%u$9qWgzBZ9*^XFABz`Ha2i
zb6fg$(B106C%HWEX|m_pI8!p*MCjz19F1P?q1Vq8R5|!~E71cyLEL0tdXIL%!zppW
zgNNDG=DFSefIsARU&LVhF5PwZ#qFXweiv=PzDg+;D5mtSnSY!uB6PYgnO2X4J6ULn
zayl%>%NbUwHSs0yMj95srJ5z9_@&4K3~CiCRZFJkP(wIF_beLqF3k@=9a+=tOq*xT
zO8&t+#<q3+(d-4K?C>39_gzb-V$57zFmSv3$>PV3p`Z~|+z?XgE#eJlN`0ERDzU5_
zE(4T4&xHWS2Xq)bN8PS1*dyuUJ<@VJz;|%iDDeXZdhw!-rjKqRCR#SS-L$g%tIb0}
z$8z5Qz0z4uHh}_1LOh?R0?yh3xdbu1JGq&@HM*Tt((w7Mkr&Yw-vsJ7cQ0POcdOFw
zsNu1xP%OVr&9A#{s9RUP?^f5vs@v7-_E>edTHPJ3J{sHEbImi|cb&XCJk|cnxoPrp
zIJ&b33-tDT@luwrTJxh)fg%<xKG1O4PmmzKMBR<#l)amD^d~JPoy=~z4lP`p@#}#Y
zPF@>fgT8><{W2aPUU^um|7zutYi2$gOCaSecd#x=MCp4FR3pI4Sq^JVZL7k%mS#k@
zkymL=<i+$%SX_0j82>D0Hz*gFkl7t9l`?h*EJLk5S0im7Pi=e+k6;IZ<J{d<Wecw&
zCgrOVc&<<p3)dBfN7e<bTI<YUIdZKTNDNz6yO)(L{I}x~mKCT{K~ySI#G;KXgV*|h
zdFa2Ctl5iO9((iAcCdz1Dptf|Ig_>=+Cr_DCQA0hq2vPy*e%C9+NA=9)D{41vO_CX
zE^Q?<^lz7%N$yPPQ)W`j9t>8T<uJ*`ZFu|3*$>Oi+U(aCg7oM0o%=bxba@BKoO$hX
z1D}dTX*o%;vz`EgoJ%!V3dt{N>6P+GvU~_h9SAxRbRl5n&yE=8vUnk6IgwRERtR_E
z0zMM?FalN=S-`RDX3ADdqC9{s-3TzM<E8N^V*3zcnhGj_tkg!A#sIYuY8^~i>R_6;
z8MIkb$y1@}uBr2?qYBruW;M8$wO|vpg>?T!uEcAL7DQfKjG$y*q*o@6n3+n{)9TR4
yUG(o0TemUYtL^!>xaZW6cX-fOBM;K-$!!@So@9K=A^a?$_4A~OEO2aMXZR1a3lm}h

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/__pycache__/popescu_rohrlich_correlations.cpython-312.pyc b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/__pycache__/popescu_rohrlich_correlations.cpython-312.pyc
index 68943ff6bf6b1e8e49854eadfaa00899d448cf12..63c27cf0862eedfa3ce1cd022eb9782ef40095f1 100644
GIT binary patch
delta 73
zcmbQTlIhS2CZ5y0yj%=GVCDWbYa>s%j9i9(QEEZHesNK<ep-HVc6@P3Vo7Rza%NF-
YX=aK3<cC@^li$nmF@jl}rDUth0fsmkmjD0&

delta 166
zcmX@Kf@#W1CZ5y0yj%=G&^j?QZ6i;(O#QB8tC-N@)S}{;yqro)OAAx;82`Lfm!izF
zR0UmyfQ-zX%!1;W;BbY2qWrAX<dWhT_skNH(j@1c{Jhj+UBA@w0OuID{N(K5lEji!
z=ggwy(##S=1B002qU4w~pm=;SNFqKNA`?@PUyxdyTpC}LpHY;PnLK%dj5K4+<VG2p
J%_n54$^i?gJkbCE

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/__pycache__/popescu_rohrlich_photon_pair_amplitude_functionality.cpython-312.pyc b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/__pycache__/popescu_rohrlich_photon_pair_amplitude_functionality.cpython-312.pyc
index 3ccb4af125da34c9b01d059a6e9b25244fa60845..a55a480f34faf2b163a3eeb2962fc23b29e4d6c8 100644
GIT binary patch
delta 65
zcmbQXf$_+CMxN8Wyj%=GVCDWbYa<Vnyj;D0QEEZHesNK<ep-HVc6@P3Vo7Rza%NF-
TX=aK3<T`mRM*Ynz<#R0nwhtBS

delta 162
zcmX@Io^jd+MxN8Wyj%=GuySH%+D0BG`TC2=RxzQ)sYS&xc{!DqmKLVwG5&d}E=8GT
zsS3IZ0U4P&nFYl$!Ql!4Mfq8&$tA@x?wKVXrAf{?`FW|ux_+tU0nRaQ`N`SAC5a`e
z&Y4BYrI{s$1_m+3MaeN~K=JrukVJekL?)&nzaX_Zxir2gKcgroGkLPLyfkCX=5YC3
F3jh_KI&uI2

diff --git a/src/fock_state_circuit/quantum_operator_functionality/__pycache__/quantum_operators.cpython-312.pyc b/src/fock_state_circuit/quantum_operator_functionality/__pycache__/quantum_operators.cpython-312.pyc
index 74991032f7991c0f03d982edde0298a7214d17a0..0c34587395529e32e6117fd67e26b3eb8ba43639 100644
GIT binary patch
delta 65
zcmX@p%lNB@k>@loFBbz4Sh;`A+Q>6UL@q$TD77G8zqlw_KP^8wJHEIiu_QG<IkPCa
TG_yp1vV^D{qyA=d(W!<2%7+!2

delta 162
zcmey>!+55bk>@loFBbz4oH5Nw+sHFVq<&GdRZM7cYEf}aUQVT@rG=?^jDKFLOHpQ7
zs)DXUKt^UxW<haGaJWK1QGQlxa!GNFduEA8X_9kJeqL&^u3u_-fOCvnesXqjNn%N=
zb7oO;X=aI`fk8}hQF2TgP&~dEBoUtsk%=iRP0TAP&5h45NG(b%$)9{xgr6~H^HY(j
Fh5$`lJNy6u

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/collection_of_state_columns.cpython-312.pyc b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/collection_of_state_columns.cpython-312.pyc
index addbf1d4dc55efda6e8acee8bae5c4ee9ab396a1..d1bf344b2127c322e8e5c250709ba3d43fc64b77 100644
GIT binary patch
delta 1262
zcmZuwUuYY39M3PgWU=XG>vC(%(o2&rtxZFA?QOPObpxk!h-;zMp;9z<mur?ZyE}e&
zM`<h+LGZyb245dU_b>!uvIke9;KcodDWWec9d<iVd=PvRrc)n8(eL-#S|+=P&wan&
z`+Wa@@7&zkIq@4&YzyF1vj3^Swj{n2Ym1^53Iy1_1^6g-i%r5C?U#0^h;#o_5gfK*
zsRk~r%NK%ZgZIR2F2GMO1nZp}l+AZVplFp4G{wU#4cEjZli{}b68jbIid`@s-@>}#
z;=>Zu<89G1?9`5hKs^U{+a)+1k0JHl_!K+V`Xhdsq4G;ePIw*G3DYr+GS_Xh;W{<b
zfFHLFL}Hkx&;e4%4`DA<)gAb)<LgXC;ksoiHrJFHQ=2W@&a|VKwHnvlnxnwdXg^cn
ziR}rfCl0Vr;C$lK0p()vsyeo;j;*Q_%j(3<N&QxJ_GZIashTUQwW_+ys=K1jEpMFz
zS9+6u+xlB7vd#=<w`nR_o=4;~=H^~_J&}SJI-iU5p{fNTSCrsJ=VF1_UUbGaG%DW<
zSGnn0Htr#i%|0kV8qOv6vA))wWID{+;rFf)7K4&}ie=z4c^50e_wp#qw^Es(gY5;3
zvQY_a&rPD6p4-Fnl#?e3Xj1$jfrwy-5il(!ZhhYK9qWA>4F!Qez`+*Qxk$Z||B7Wd
zIR_}zeH|3h0*i@s>w4cSEb0dh@eDlDFUR~5$@sl_*dNh}ehbUI)4zvxA3-ZmAb5gi
zTJv65Yv|LQccG;~?!|#(gxozDE(<cu54_L%U~EUK^=R=YCUp}n$e+g-r_=Ub221-`
z9%`kxkvTN@CEVD3wdYw1A=*}>=9D!&qmzcskD_g}1^7UD3yT^We3C_cwglIPq}2ad
zl;~xIW(k&*op61~L7!o@DkR6zT8R3s@Cl+#5)|R%;cU|1fZwU#SDQa;FAefTX^4zW
zDJ7(O@kY&d%H~XY?K*f5`THBA<MKD=1JA>mk-rw{#0o(#!ga^x2H)$eyh=`6H)StW
zGaQ@{*}c%TF~2UaO>5mQjGKmzwZBRvfy&_1DDqi?<Nry1>>8>C$%{g4|L{~VDqhs$
zrloUd-v0@_h^;%0&iNtody2qs{27vp1at>$8+(zYDFPZPpF#LAz^O6p@$CLDaDT@~
d@9nh7ux3T+&*<YP&5GO55Ar6MkCg=a@-KSdEp7k+

delta 1233
zcmZuwOKcle6!r5bi5!0#?9_3cX`MPYu^UsTg(gngK;$M^1xiYUD(HyGFdjFPPG;OU
z<3>S2-5{|be5A`FiwFWN5TX(wOI3@6U;{!RAw^JCj09rK0*R^%L}9_bW2<Q;-r~%C
z_jBI6=f2rm-ChlU9}WjSxbFNV)t~$<yxAM<#+}dOVYjRBN$*c=0$vGShwGt1pNGE=
zZ-f)wz9eSU{BR{an<Ud+>)tDYk6GJ(Ibf$C7<n%6^SWo*3x9^<upa4U0xTxuuoVe*
zZTy3Q0~83|t?9;^A0p@2RI3pEg2nq9OQvla5?3u#Z`zt^I0D@A2{6!C=nCOE`8`nW
z`wfZ@e0TY(GATZ5soW9`eXU%ccw}6B+E7n&?UI@<rstP5U29n4!rAmZH<wk#w#3IZ
zyV`uQqML?l6;G?H^A&N<R4y#ovaMD$t~51!tW**$u84K?OBMwrr5zD%b){i)S(jv^
zCRq)LP9>QLav=t1Vkg)(ycxUJpV?M#=4N(sGdFW{JGr?ZbJd+_6)whKWj9)X#}BcP
zfIV0wSej>`wD%Ir!iRe|QKZKb0wd2fY$YaGwsj+s3b0<dH8{>fkQX*E<*JZjqu>aW
zEYs@W|A#j;axYnA=ou`NhmNvgI)o<(NHTtcAdFxI5Yn`GrgiP$FDyHYj=Z1$Pl4s{
z<YMaQ!{0JtH|ID};aedpp206KwBF6Fvy#i^+huctT1_=<t*+se?kgC?s+VR#iYB2p
z(m)a9p?K@}kpt|(IpT{UIDW-!tT_QiS7pvq=*hRKodH8#g~dXDyxr8j#Q0j?DhSXl
zyw9>93>@;t_fwshFA!@_hXY276R5RXd>aogmcD_n9{Td&DGWMctD$SQq~P0IF)aQB
z`gZRP?;U;(6)u)4jGcmuWBX$F$LR<W-WdZ-I&$Q^Kk*cu*W)(B=P7!Ipa7p9ODEjH
zxV^fa1zpjc6#V*d3cTaz4v%806VWxxmdv_zo}0~v#fPZg9VGp{sD5YRQ`#8+_i`4U
zd9TyORlCUze$?IaIu%8CZO5k>HcCQ%$0r+W9lI@0$L~Ll{|Me)q9i|EgD;}VmkH#%
zmdm|_+kD*Vf$s7#HVo6{)T1+$Q6X?!tddnApt-k)ah9y-2}A-F;Uf>H7O<Pm^4B<;
f7bb7-<K$?2(Yn)fe8sFab#<Dr!G)=!pCbPO;mj|R

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/column_of_states.cpython-312.pyc b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/column_of_states.cpython-312.pyc
index 4e970e48532019c9e96cb08a5cb926faafd28326..bb07477800a87f6cbe53d413e45f675373808340 100644
GIT binary patch
delta 65
zcmdn@kLk@{CZ5y0yj%=GVCDWbYa`DtKe<T#qSS(X{o<lz{j~h#?D*o6#FEtb<jkVv
U(##V5$!7i<jQX47{qN@k01-(T4*&oF

delta 162
zcmaF!mucTWCZ5y0yj%=G@IF&6Z6nVvzxvh5RxzQ)sYS&xc{!DqmKLVwG5&d}E=8GT
zsS3IZ0U4P&nFYl$!Ql!4Mfq8&$tA@x?wKVXrAf{?`FW|ux_+tU0nRaQ`N`SAC5a`e
z&Y4BYrI{s$1_m+3MaeN~K=JrukVJekL?)&rHMbzYC^08KF)t;)xM1>UKS{=z&Ak5i
F^8o`SJx>4t

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/interference_group.cpython-312.pyc b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/interference_group.cpython-312.pyc
index 3e15ed7d15a9512bdd51a51a2dbb8d537c0d2f78..cab28ba1c615cc959d148e6c60044c5067009045 100644
GIT binary patch
delta 526
zcmbQUpZU)|X1>$Byj%=Gz*Y1=E0%R5-#$;dX#Jwpf_(krqGbKF{N(KT;*!LY)cEAg
zqU6%d68*_GUK))0lM{=DH&=LVtYe(CS?i<)BV+RB<Wu(<W#btbYK2PFK_-Ggjo@lV
z2+M^bR&sLu86)N%X_m<o&Nwn<=}vxlN=mGTKZR`$6HFB&Lr)?LLk-L1ejCwAXZaY@
zCi9=QXJ+bQnjCo6oUwm%=h+?1jN+4>F3x5uO5S|y;w47L#go@w-p(kuIrRz`V?8Tx
z0@DQ6J1V*t^z1LIIDBGY67*x7=rh4}hUpCrw*#dYHGD6KsNV4Ko#1+1#OR`k(FJ3d
zOCqixSV8JOa4-mpT^G>2D4=;=z~G{Q!3oyu9%&an(yn`CU-Zbn?2-F{fuWu;j_D%<
zgHb%wR|W>b1f~z%AUi+sG4M)X=aEvp$fLMG^BRxN2U|H#-470o3<7c&IAni*@}2zW
zYOtmU6W2jw5f65zL$)Fw$}ESqBs}c7j>=1Vvap?C7xPeHJ)tb-VZ)xxGO1N$bI-MR
zOhCU@-^>H~_1R5xM#d|f<!%Qv+q*Hc%6(vCu(bWa4rO{W`Z9ioaH5zP92i{~Kd^@)
eR6&^_RbSXcCvUiSmp@s6QSK81h%8b8#t;AqXs9Is

delta 568
zcmeyfk9p31X1>$Byj%=G@P#`eZ7a)0zI~qcYm=>FLW@(2ievI}DlIK7OwD8b^HN=k
zGRsmGbQJ<JGIKHuierMq6#|O#vr>~wieua}OFT-GoOAN?Qj2x{Qp*FJW8CtSvx7?#
zOH!RPi;_z-OAHMRVv38BW72@)@x>sC_+*GoOi5~PL4HwUPJCisN_=s_<e#3Bj4_*q
zy^ho|mTkUq!h(@8bhF^8`;3f%lRuu8W^|m)d&Y>RMkq^ba$=<L<ft>6Vm16JY;%}a
zGlD$Az`)4R<IKX)6Fhn28Fj{p$v4l~Gc)#lnJj(QoUw6p@Yx;AjAD~{F3#S(=Hhuq
z#_5x5E^lX)-E4A&i?N=CH<oDv>m3!{3wrjKRUAGsFbl>qP4t=II>YpahTDPCiyFQc
zL{x8h_)c)WE@E_1#OQ*t%S92_8zPd|MRYHU=w25wxhP_C!u7gO)<vJJ4-5=7jL}RV
z85qoBn7%SFh{iH~WCxk}ff;1c2Ob7q>FYd-7kLyHXkO#d`C!c_%c=XpjzK`~0*CC+
zPu`QSUkz4sH{m*HEaGm-bjVi3LzLyPmV}2P*HL*%4>PvomSP@4tS3apJoGjPTw?`!
zE9_?8=94!~7#S~b{&y>w+1{0rRqg{DgQe{Ub|}-6(U<WvgcHHU;K1m@_<=nHp$f_b
asrtemGI_$iyZng)jB=kCKxB~$FmwU^!NLas

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/temporal_functions.cpython-312.pyc b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/temporal_functions.cpython-312.pyc
index af7bd1a305968947709ac78c1f65105341e6582e..dd081e316dcb349fe84ebc3410f9babd69a0eb12 100644
GIT binary patch
delta 69
zcmdnf#`vn0k>@loFBbz4Sh;`A+Q?(dD;KR_lv<FlUtE-|pO&AT9ba6MSdto_oLQ7y
YnpvVhc_Xg|qyFTN0>Yc$^7@+s0262zw*UYD

delta 162
zcmaFW%DAVEk>@loFBbz4Ov{u@+sI?eTfa8hDkiizwWv5IFQ?Md(!$g{#y>CBr6{v3
zRY6xFAR{v;v!FO8I9ws1C_gJTxuiJ8J+s84G|4$9KQFad*Dtj^z&XY(KRG+NB(Wsb
zIkPCaG_%Cez#yi$C^;q#C>~!7l88@+$i$SS<`(1^CFaB@=B30J7fjCMm1K<B+`*e<
F3IM}mIrsno

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
index 067dff0..0ecea4f 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
@@ -96,7 +96,7 @@ class CollectionOfStateColumns():
             # column for every state in the collection.
  
             # check if state has 'photon_resolution' information
-            if 'photon_resolution' in state.auxiliary_information.keys():
+            if 'interference_group_identifier' in state.auxiliary_information.get('photon_resolution', dict([])).keys():
                 interference_group_id = state.auxiliary_information['photon_resolution']['interference_group_identifier']
                 if interference_group_id not in self.collection_by_column[initial_state].keys():
                     # create a new interference group with a new column for this state
diff --git a/src/fock_state_circuit/visualization/__pycache__/draw.cpython-312.pyc b/src/fock_state_circuit/visualization/__pycache__/draw.cpython-312.pyc
index 87227ef292852e3c79d2e132f551fa92543a888f..4b7e8b75c1286234c4436cb09312b18134b16f9f 100644
GIT binary patch
delta 9996
zcmcgS3v^u7aqsP}c2_H{Rx9mlceQ`5ek<Af+mdW!S+;B=%U?j2<)19;tz><?GH+M1
zCGO+VhEhn>#N+~T2n0iNQiBXJY)Rl8%BN7sfuu-v5>q8<NKSfAN=|bWC_N43q@B5M
z-+tr|ZQ9dk@4Wk&J9lR8%-nhR>RXR$A9ze_e#dM!aqv7K{^!_R&zetLG;Otsdn~`<
zy$^8QVGYMg`I4EKg+dn~Nd=_fPr3vvDWGSqer*%H&(GTEo+pg^ySOh|zEn7*9p#2J
zM+%ZdEm9$|2-fjdj*Ibg`NTpBsb;QF#|>$vLdhZ&kpjVrgh%;VLz28L?m>R=8S~M`
zcyVn3>$64+GkX+_Oek5271;97v7)@ZOd59;t?>s{OraP!vdwFiI?v5D>A2*$<)U0i
zQ9Pt#X3mCuSc;I-d0y#{hiFrAMb<ok!xz!%;-J<l6w#wjN267+XO5YLp;B>r24W>E
zY5uY}6k5?Ln8vF)PV}whr=5)zOgO^`Pl{)AIFN)CZGie*;)b)tZ6SHZETniG7F(=T
zc~akL`f;lwxiU+ZTwp;sJIbeWaF(Cb-H3<%DzTB2N|~8xU|>L<e5F{>R|m^w7D{k>
z!GVgAY$RV%kz^<N^bdt$mthtdVtpl<Obd4U?{+_1oIr`6x6)<1dyOj#!^!BDW(o(i
z!F;9COgy@&#9ix-SEw=&7bzv~5v^(*l84yxxih@z;W@#>%**G5s*wl%2p%?xmyz`n
zFMX+`ov)(%zEMnn=E$!|_Oo7JR3jKAAMuJ`BtCIYFiHMgj^q<RUFX=v`{})4Vt&**
zqsUxzEJdj*gObQc^~5h2X3Zdqe{KZI`dM`D0MIIQhOJ)g9WMn7z!|;7Mt3;3Sc37e
zDxwe?t3@ve2UQ^j{X9^>M=Cq3iS`liSzc@<zOx!}A8;C?=N&G0zRdV5<+`{d-vP{2
zC`t1918c5EDf+Eo2}y$LTPjy0PZGV`mCskuLQgrJb>&r54rxX(+`wu}m86oCPb2$*
zC@+-XubIo&aZ;63Nl&@!n^$61T!mRJRbDNuwu)5K-?|;HFbR<`3qzr~7j&FZ!6IXg
zR0h248?Q}|Bq6~-YG)z5%tD}0Y)4g?w2IV_RkJqWwuaPXj)4)mE3s!Ghyq?2j8W)e
zfGnd0?$%mW8eB}28^R45K$c9FwDi`i@aZMD!+JxB^FrA&%Kwit&b5P&d&CA(rsz+s
z6-=^J3)O7ZVpOz}+N4!qyPu!43VKkW5!B1Vg0vb`x|%Iz8B)ZhB4t=-HCP7LS4ZqI
zBeBKw#1YdFr)brH6KVyYRL@+pp48J*-q6+taK{GV66`isK(s<7t^;X6D3_%zK-2@4
z;(QI@h*);O+BM9fJ2%kXzS5@g!`C2Dmn4Cbq6epl%vCDG=tiG`UrhsnZbPHggbdL4
zUvO@d%T$|#fYSv0VVrD^)?LLRik;#bH;(vf0PKMYOs!Sxfh+`sX29|@*_seaEl{sw
z^+trsCLyhXFmM~G7X{*t9gj1%tjJc11Dp#PEXZQeMt|%NhHp%mkNy@S3orgyA!}bN
zwF(9$wy2Se^^|EzV3u|SYP@YyJ86>|NgG*<u~cl1=P81L$gT8)KsaZe$_{M^76)51
z`U9%^AZnF>xGBt4nT*dl!A@Hh?VjOdIiTz0WK#18C#|O!g28<oQkrXJn!AaGUOn@6
zTvokMO*Y`>DQyJHGD#aV*zjkt;RlQkvVN={gK*wWWFy;bJIDswR_4uXOo_Ih9xHR_
zHD}cwyP!I(kv0KWok_p0m1=UibPSTqk}=4Twpw*|h+7c3m=bMrr@}#FEvdm>R>c9?
zSFvcNMl#i8Q|?LYLLvIKP_9Pqq=!Qt87yMmjT{4uo0)qx%j=US)k2_j6B;QqH#y7P
zAhbJZUisRb2I#K`!*bEDmHX+P<+=2qUa)Dov9*+cxR~A*H^`9aZGzQmX1lT$xV7hV
z(iYMTo3dK#O7?27SK7+@l=3!ti<k>uupNFk!>=2DJE8%(3tD~9>VsAvwECdcE^kfZ
zVk_ceYs4gP6OB;JLMA0*9<hnJK*#`nJ@DJfNIRh?7kUhGS1gD17^R(2Gqf5YCglK5
z5BzpUb!ti8E}kH3=yHvXUaD|ecL^rYh!zcQL?i7cYrfoIZ{0<93*d<to9A_kb%2~&
zp(VqA_oV6uW~+P2nz5TOF)^=+cPL}Pc^c`q%8H(w#pj4GmQPv)j4CyV&r(3#i}yqe
zuGKDYM2nHGnuWexQ|qXQo_#<mh?K}aHvcWixXmQ*k@t>h$Svd+T2i&1Pc16_$4Wyn
zjw!q0m~U3qySl}9h)(EaRBugtSiF(GTH~V&)n@9bF3;J=<OTm~)C!x^GzDJ1wUm?h
z2(>FEP4i24gv*?ngj4E5D}1?nOPaV{D{Q@*IIRo2`F%hp)UiX{a$VKlc0<+PrV1cy
zg>7sOt*{;6_>*q~c5lYgum+UTjU{1+(0Z|J9>NbkJSXoIe@Gf3q;)}PdKd7ML0;KA
z*$DQ%A@xF^VmgYc>`%*1xUm-c{hFY*Pws`~Ym@h<)YOL*VD6seduQ^!EBW4lZ(+Bv
zM=)I6OE1;9(~E6_P+SK#q7c2A5mnaxvxsiWBsvcpJU$Q)8g!i8OE<OosB^Wqe>Y6)
z6AXg>;=XyKf|HJIa*z0<>n_QG>n;h9kq&@$*K7NjCAY~3{!dlGh~CVI{;yR5(F0T=
z%LfD#n1@!-u_ZZx9t$-VN<c$5&=Dj`I^v9J&KArSs~IUA3aGg!dVXa}dX^_8bM$^_
zPktzOja)rIkt}n-K}gk88=l-x4&qj*E|zpCp5FXc_8lf3$RXCE-t2M<X&HeXS3U%=
z9XPm!*@+&b7|3b3c<Vgu()hqPoJl%D+~O)QU1qAnZHSes^<oVI?a^#1Y7Ke@1e0Kb
z_c3VO&opb51!lO=I2iS*q(=BO5h%kjfX7HF#C>ZLp9g%sN(Ood<69Lr!NUjSWAdPU
zR1NUpGP~g<2Ex5`Tsk5RNdm-&^+{}++mOGeg&bjdMDnfb1IQm>Tpkzt$q?w`;5=lC
z_`sfl%4=>J;gPqid|3eWr2l5P+FsatahN?hOz0O5!5r*sTluo9JuHOOuRb7pgssI<
z;V26Q1M^@#>g=#1L4?lD8f`w7F}j6rY;ZXkg^T9&K@TMH2N)9_z(o3EUhY>dhb?LU
zXPE*c(UV1jtRRuno@!J5>T<2nq(khz7DorOI6C;>;;1{DqwAAEUYOxs#mh<1&^Y6#
z7ng}SLfV()6v<5AQ#t)?7h;6vYY-;aAe`1{7UAph?v2$G{32mlh%kr?$>P?^HcnR3
zVEGUruVyAzry|RTSG0k>VLl4kS0rkH(--{si?Hl8B1gn~GPJNs)q*sfsV})dGcF0o
zfqpTYluZfbr4e<z4q1gE=5NDfgl*1OTQ9l~{YA6?DA|-elFN}dD<zVCv&|Ul>RUM+
z%mI%Qn7I8=im;h<!Z5xsj-;a;tp8a^sqO59Eb1yT9+?Iv+16zrX@Nki?6g+l1fyUT
zM%i0!9m}eXXVoUMYA4e*u)@9RK*5Y;u!SV2N`{GO8Xb&xGOKp#dbO2-W9|&ZAo!L)
zTQpaY6w*$akS9|@_O{3e6(QlI!7ALIMO)0O#jaOVa+eh%4Yd%JuoC&=S;MEYYSY)N
zT_w__jstPN0(p#0+yuvMB}QQt4pu^H_;kuHPk`-hKchLL!CvJcVn{or!4H0NVr)A*
zdwgZBzW7W!T+Z<Du{auc(7iq<U0$1KX^_TN9uD;3$Nd;&i^}<a6=}?ftE1}dcsL^3
zNRvEDGQQq0!-PA5PSQjghBes7&aJ!UQRM>@E*Bc;*IV6kiVo~%?<MaQ8l`cND4Clw
znUt(_4YVr96yu6(V4pMrt@T(U<BDUj)|1f64r;PmqhuocgT{zXEKRcX$X_*?l^so9
zFFT_5w6$9Mq*J6%KFQ98@bUvZ*yfZc<x}8;>liyaK}mQG7iZ`vZOzFM(X0_A$q^fq
zBUm<jah9HFui{7P+4jb~MiAr<>>caIoss^$-N-l6U$<}F!7f=&!wD%5KdJJMDTT@4
zcj1JL)@x@HzgqVzJ^g3mE?g=Y8Wo48M&kp~sguVeB7Lj#NBrIN(ajI@cPHAmM0ovD
z&S*Sxl0MS)ZF+EP4SzfRv#m4b;s7wYq#cjUEaglOPE19XtV2_x7>NR%Ng*;Y8XcZY
zlx*9s<-eIY+WnB0zn6Zz^FA0X?-F+g0-rS1i;+{4^)Yd%et2?dd>|Gdj7J8Ntkh4B
z#-;`*MrQ}(qm$8kK^#0?cWOp_3Z|UR?ZO&19f4|WXW}n*xAJn#l<Ql}_uRYVobG+6
z=iH%1XZYUk_bko@OZkP;OEcfS^VvHuw{BkyZ-1|?^A*dBmdkD3S3CnxwqIzzF!jA#
z7j8RxdDqc%x1P6uwg0kbU}0!#nd4^o%^G-Z(d^Rv4r{xyHpK72ns<-pZ0@q2D|EpG
zKP|7$yHeh@Sl;#O%wqZ8MCabSa!Pyq7Y;@idxx*|jxF|%EsResOrN>jJ9D{qHt}Y!
z&r-a4p>D^bt!H6pWMO!Eap&np+nK~~gjY?*(>9dlcM~)*8MIU^RIa_8-}*x1V*Unr
zC;oo&oF?z1eGblhjQ{<Ivl@C*46knkJ-ktA?(A(dzR{9{uOE6WoxK~4Khj$|_iK$;
zHWYR4H|pOD!^^Dy)C`S9`cEt1<)E*N-{Q~Fu~^vo6`&I4#ivoJcr6wX?eG%sOU%c<
z%9lH!9M-a4aUb-G&mbNc6Bh_1F+WdFOr7DK^cPbu{%`1iOdW^v(doLx!_z^Y|9;}7
z)5F>Zfv3D+BW{3pQUtJs7y&v+F+eA=19XuRfTeJ`$O~?|^A4}e12;ju;DwtPUhs`@
z0R0RG=%3!Poe$Et@3;ci^#s}G7VkjT2!dV&crPXPA&{tDYCd*97QYN&$*h{%Ky>hA
zMEpzacnrbg2%bRj4FF5JlY{XSOF6?6lar$OMQlEg;6Vgu5j+AQ>{S%=4E?(F^Spn>
z<}m~x(|hl%v`bk0Hv|y`!w5d5uirVXXA1rT?T|b8zoN2yOuJYZq#wxN)`vMu@p4__
zvAaI6k&7x!@8wr7)OIdwq4<8j=iKefIZy)YGyBe4mJL`oa%RuDlgqhSHgRV6xx>qO
zSkC9np@oX}WiwU^ICJ?z<@#j{Rth<D<wAAGvK1>u%J5<=+pv6O*^cEB&Ma3ggtsho
z9bF6$EIY8x$(bt_syY`oA6%?DwCuvB(j;LwRy@fmy;$+VEEhD(ek=z#bN!{F<sg>J
zICJBrrsWWn7mUH>O0F=xV66WAhl4!l+NAmYhlO0Q7hXE9in{OimIdrRTHW8eih7K?
zH;wKdv+m7idry(>t+2hvq5EEwy~mR{c=zXuiqUwNbn(cUcnmL}&@vOt4^a*8Ox*p|
z&3ac8T68m-GS93ytY<Mre31V9v0M13Y18>Z-kx~id>#)Y&OhF5;G5|O7h(l(1F>2C
zs=%I8@jCGxI{swko)#p<%z)y8ejdRW5Wr14Cw>h98r70+Xc8h<DPp6&gw2Ynv|$5t
zq;@PlL*IWg%&(`Wr^@(sboEny@27wqGXntsN<WHEu1$<SC1?XFX@<}b)dvs8vHsB;
ziGO)|RFfBXt38Ac6x->ga$~8WV;_n<gN6Z%iV+XedoI=TN9l8ys_9FYye32H8jt?u
zQnkyNs={9q#DnTEl0%O@8=@W0mVh_ze|Cn?r3=r7WYY+T|Af3pw4=P5K)^SrNyx_?
zPB62paJVCmz8g=mKrAYzP{8^v8GVH-`uMqDr>I#N_U-9wYAQb0oKpz*$Qru%xQD*^
z+%5x4ECjeKE^*Rz&zosSBET2WV+pstfL+nL;LJluT##7ubDv9&TQ15mgFe|EVTn`<
ze+=+);&Oj6n~k5FCSIX{NuzM96>O3xYJpbv#{x+iu+<F*ya2JExMN!4frRNn;u1??
zPA4R&D|xd#pTC0NV6tAq_@8~=nyfom{i)~uvO<I1r)Ovi5<1D3p~ci($oC37|26O&
z*T4&q0BFi5wh+JAq;f9{4mB@To0Pu@!JFz-j;c<7H7;X36IUpd{P6RE(gN|Sl)3qc
zp9Inu^x{7VPALe?G_E2+!8Mk;=2i#5O<1j3PA9d<BE9t8aJwJQg8ql&*os@}AHEZ6
z5B!m%9XJ}k&P>$zqN})+1haf3+1}|EJn2MTu){70w-o5Mf*-H^)vr%z4a~v`7xt(t
z%CJ22_zP9^<C0<@{27Moc)>?BDiR!rl@SwU>HNc`MbjKuzHY7t5ZOW9SR>@1Hah=s
z9?f~t$%h!HaM7B{Dc}#%9WOTX<%v6AY|)irs1)BpkScw`*RyO<Y{BMZ^xeOX>i-;z
z_s}gbS8cu*i{k*oE^!kE!-ueeZLTbg;suAYY1;=TBGHlfiGj)CfppR+-cO%-*&(yd
zIkj;sJGvLhE#)X%Jd4XuA}zMhKa8bE0W9fblVUs~ENO>Mh)P6ng<;{45~x!_R$Py~
z9m5g9$y4#sp}~oPp%a7AXk;P=+|Z6!_VEdN|0_NGr-`4vax0(r3eNB<g4gK!*T$6H
zzLn0u7UW+_{NT0Iyz{5kwHLastlGG^YUAbVj#opA)my)3S*-4(eXqBK51m*TjV~UW
zx^ie{@z4yUo_FwDF$3MExmoiO#3Q~NU*R2^#M#$>q7U@t7rs%F+h;9&b6tL4iSaFi
z4xuN%&trTmtn2g8FTCB^hgqD6iQba#_~hh-vMoJ@EZ&D8y@|1Wr~$EWLa-JAW;!BM
z8|p`_L*PVUPlVq2rAB6DJY@~%iauyxvO?~3YGN`zF?t-bcPuUGmA5ztXiG(z{e$tL
u6OovRJC|YwY}t`q=1f5L6XS-Hlfu+QWTS|AD*WeSUI6s&zw_ykhyMaTQ?1be

delta 10233
zcmcIKZE#%0k?-xUwEEhWv>(z+tNpURcJ(d!Lzet)$u_q9g>6{|OUSlnB}=kb=I#1R
z%;VvNBaqqy;R#?k2!^}l2=WokngFQ;R1^okBNe0qVn@dv<SJEHcUR#A<i`P5SJypn
z-+suFA*s5j(!80Tp6;HW?w+1``-7+TKYmJYde>yi5#agXKlTmgT{fN0*L_qIyD$Gg
z#j>-4(5n*!IZrlG6DcSGq;svLkk{EW7OzQ=mS`O#`RsSESrv=cCWVMTEKZ6@TM$Gc
z*|R25KUW+nRr>{Dq)e+N-`bdQBZy%R72F(KHtVRF9kNvCrVwT4Ez3m@yJ~TX*ymn9
zA@<b*wStIG<8yPWluulnN5scEt(Be>1{#&*n-;M9tv<b(Sl9_iakH7&Q5PD8aj46M
zN$%8q1BX9a%awUhk~8WT1j+qvWF<MsZ%Cwt;~9d0^jAYW8oL=!K;X|%Tu%0=%{pHO
zS~v>kAXRA+Ywsk#NTEhY>r2cUYz(Er*=rI_h*87MWMY21t1YgF`Llts4F<HMBAhEJ
zM(xNJny2bXw$ePdyV&1OjN`zVciK{gOJ5Qg)C$AxsTk}NyWL)t3Ly^8s)SA1Jzz^U
zMb5pB1^S(-iyfz25-Cq8rkFZt$&g-Cj9f}BdBPb{DiZ}##_hMP^b`WJz-P>)j5Bp{
z0iD#zeqGeYe*dzSeOhd)jQ8@svXG8s$z{|jJxI%>D9Mps*#ga@F1EdRhv;HY6gTI(
zQ2U%-0sHu62hylbp&^N(OzHxanLrt?=n&L1$1wo7)f)SuyR3Ay6HEYEIT3Xf93kGa
zuwF-p$rGv8W=hK0hF5Jh)T2$6WKIG#d}Qy0F4Re#6QWc>%O-TvT9DVr?kO&@=P6vu
zQlV4m`)k1Dp$Db45DOTmMt}z%K8bruO#1RjE_?Wjl|5aW&wl01t*#i*4G9CfK3IFX
zf>zKar%+07NF)^x>!NuEL9Uc5;$wd4ENz~TUw#9A72waC*$P@ot5Bm0%&(gIXf=;o
zzUYq(0;%MI)GvDzg0AieBneU<G19=e9{dC1rD`-9Rk?=xY0bC|rsAjm)G;)`+|FXB
zpLzj99gT6)8*MWP6Jp4f;Kh|vs7(@A7nNdW4?2r8(iCC60f*SxgwvkC!1Vn$nZED;
zbHY0ooG>kwny6P*om30v6o6K`QZaxQ(m>q6<Na*C%ibLr&jPjcSRvPfI&1mTd65Dx
z3iV=}x3Xc0P|0=F8qT7Ya3-~fb+ky*f#d0kTdwDBSWoN2e_#df((Q4g4d9CnARL%)
z*i7}L3cZjvV5xYMYc6F1mg;{E;EPx<24)RW4~_?dfpT?BU3?5q3B5KkDq6+y+y-ew
zq?Y@{sCPxMQEt+hj?@Fsd5_}Nj159g6Nrhyv^mtEjY$ZKT1W_wn@R+>QuP707v0sX
zfD^=qX2A0BDK=p#w?Mm^w;QokHw<|x1c80DULw>PK9ZES6{Sr`q4E1hxh>4>^#yLu
zPYitu;YO5xljLS!CNC#OHRx#JF5c^O=j*9^oIT~PajlSB=?b}#uAs{>+)7I$x$%h$
zbUDm?i3Q?S5lnSuQee!8*s#wMT%LmL)>M5XzD6+lPF<L&1NOV+>f)Rc!x^wtabe`<
zAwh0qpZI)AdqVNcx#Cyx$eqb!3ff90@zZwPhvn5^s5$cL6v<pEl6e4Q4Q*RU>2wuc
z&3ExNDkTya2UVzXklnMyl-sDuPutk*ON#R$2uGUJU@m1XNW3l{Bm%NOTS&$=#S5_v
z+zf1gp;!pfkS~CZu3J#L0QKXRugwLtR0DBSqp4<5Vjj3mA`Y;@^70g+*Rg*oce0<B
zSL7yzMwqX0J@@Tqr7dp1Efi{y%*Jh7Nwe*E@ZC_cG8g@b_l?xEsS3N;!p^-|ng^2U
z2{%_2%)YL2vbhSQ(#+EVJ@i}i1bG8(hFm~vZKP_i4twPe-lx_(l?_rhxZWoC-wgj-
z;QyA8SJ?<qH$dG0bpzB5P`lC*$3-aOA~Z+ol(LBXP&zWTNx9S_Wdk82plyZ!ZJe|N
zda|L%sB8>p@SZGrTgU`ZBgDlFz}X7_+d>Adrfiaq(xoG<+%5jS(h=w)IiLbP8tRZv
z-VS|jnwccuw2N+MHB}z#4!~W;qlb~3_D;H#HC5ZpWO-zbhE5yV-Bp#hZI)i5W#K&9
zLQwTJh|Y6QOb2#^%nQMl)o3;H4NOw}Lm0t@D_hYA1}^Uc!agKScX4TUFD$*XL)kf`
zqr2&DwzGN_Eb)?N9J%CA8u?LmW91g<U1}g3IImliLPe6!hT;{z>|#6oRr+0^o9RZo
zT~9V9IT2C0wNy}cu#0}DxQqS5UoSSYxhgk%{7Npf22w|DT5y!z7?&HyE?KMGB6TjR
z<vlmm@*Y(@MHpGDtz7c0>;VOBMgazOFy$>+Be#&&OP!Mtx9|}KWt;Q?ZG>2e$>@84
zAKzTm-IkBwXCQem^rafjzNG4?pi>u=t*^`I>sIzIWPQp$AfT>uH`j@QY>mIS#ot}=
z_iB8T?PLcrUfMYc0Sq5eh&CAn_Gwk^Km%CK&A6z#{U$E!7w4kvWli-SWgp1_#p#KG
z%e4>98d}`TK)UV3O^hV-(ymF!c<@OEN@c6`;i3z=f6)a68uI?6S`9SrC#cqpZgdOw
zWQ}XpH%;st)R)cG$Eo>iU2DFH+D+7iVWZx|o~bQUZmJGQ><qLhteY@J{~OL>7F1`a
z@Q{`vW3;G97)J&6#*Y>~0FR&f7r<ASnd2+*0SDl0k?>=shaN~hRLHlbY@YM`Zl|S?
z&8%2B_RtpEG6b8vavPLwAkuDbJDC^?!48a<lv^huGr$Lqo;mVCS|Zhf$8m!udk`(r
z+KVj+(!J?qv=;RAksOi(?>hjtkDH#E@Kpj>f5@#-8WNK<6llOODDR*S*fq2PA`HmX
z$Utv@WRof;B+Gru9ZJ8_J84iMkVNf-TPkSDhvb9uVfo0Sx;V&_mKMt2Tra2?V6&e~
zdx-SV!=RJ{laS=%13T=(8&b=Vh(g1R(nG-!7=NSt?}n^x5jtj-5a}Veffx=v&DN0H
zNx62&1r7)KlJ$~a9#;A$!Rj>GFu=nd6Cb9KJ5q+VkXkUz<hBPRcua_syJVV#GfkXK
zk#t}&@rK0Y?S|5$#R+Z}J@f2IQ4K1^p1uuHI*({#Ei_Z@(Trf;y4WQiSJX*hsc2QO
z_*AJ6q)B~Xp45My&<oL2RM$dzxy|1o?{PRHjxMefICy}6B^_N!Fi8yz+GK8YXNCLo
zw^ILnR&)VY$%RQ{wb=BWVWkm*P2A*2KhA}3JM&?%N`pFit#TXS)^p2l&~TO8=fPCm
z^^jN&gp6>bg@@|_o`4T11JZpddRaRuu2k1wCaEe^dQ#&kIixY*EMb5gRMU__Gdavd
z0HHyia&V_h^OA)f7%r{&xV405q%`@~;QT$5p{xf?_PeF!HA5NT)JOQ#d!RPJ#~TR2
z_oZMm9Md9pXjw78LY{IKv593F$~==-XAB{_1$GQ|J2aC)PR~q+_*;V>O=}IOwMNof
zqsbPSa7q?KmnsXTN3iN~=J6nQEJ*--;dojrv{-9?Y>S?Om<iV^6NS+)5{U)7a3v3J
zT`w+o-9!@yR87FWkC}|6u{)90x^uDC{OoNZmmNf<Q;n4xyrndP;j~s{vDOXq9)o*3
zOOzS}#Ud?*+t4B%sl#2NfSlBPUmm1`BU|_pD!(<;dMX*p&x&xS9*PvRDX)XAZ_Ukb
zkdMy4o>A~><tXIMaD@>Tqt&!ACBzSDJn)uEve71Gh^8EAG1rDM8)y@47}Q}O|EjQ6
z8Cvih&apI#kOub|gh=uEmDx&y4eZ_5<6oE><zev7coL85(r$<Vs@@|Fs}SsyM*zwN
zqr<A_ap)*O`Efc8dW?>w9|E&5D9Fdb^(R((s*k57%f}Z>mf3Gswyx=xL$q5N<#%{u
zG;bl(fSu^L5(39==WA{tYF2B!bee5zTe?c6aO_)ASR1FnGucaL*sE>T;t>0!tvRC+
zCVG|?wfo@swz7TGTAf^R8ZNs<`2SOCf$_tyKpwyv^=D)2SN%Sd?cVr-_#IZ+@r3xD
z*i=VQWObWfFq`@ZhNXd%!;${b;p0K}+fB9N7|Ymv)-hW+a8i<jA?O$*!T#aU;MlBw
zG<Y`l?B*?c@tN3vY<*NO-p9`Ec)&0Q8fS$&LyGsSdk5NkyTd^#+#5P}wykaD^48v6
zp<t&pd@AUz_wGJAd~EncxOZ=lcegY)5*&zxd$$ZnZaI0R<Jedz7_Q$LJiWW4ck|f5
z=-$ZTNU%c{t+}bGH!KbG4g$PCj2)WLy{Cr5Cl4PR9zPrz9t*j9iFEjM!-=!fb0E=p
zb|<zF)CbLQM(iJUwu(w5C)+)fS9brl3x-eftrJ}{`QGXLy6aZgMcc*E8DGmaU+avo
z^?hI4jJ55$&2hmwW2?MotDCXaO*gEcT6Q&ereoi9cmGVsq3Qa=AJ~puca&W?IO7OB
zS2OKcK9?yJ*fg3SRrs$}bk0<CPDQSE&1^X^Q*mIXAQs(ycSgp({qNWI#47f?^No&c
zwyGIhRjfNWm6LVWhT?q|Vy+Xu*sc?g>hzy?+t{2GsIP%3d?4g+=q||mpax#{tZQD&
zhVIhL>n3=4GQVyCU`6Kt<iIPy_Jw~eKEl2Z2OK|uaRE`9L=E7lTCZe*m-M~Z>d50_
zg$?QfJ@1ung<k0r;$ima^~N#pXJ4K?<Fo_fK>XVb^a=td(TMlOKeFhlBk%$CzfLun
zsgY*%C$M6!(>_srKeq17p#Bhi*%FD3TA;MkEGUbp70P02htdJtp-4*LyQ)Y^;k$)M
z3Ml-ehd|v7b#uJ#gztVLd`2sT(lvy=ZeDs=F5Mz}*<N}LjIvhVTt8bnFn0XJ*vSyl
zjD=fx|FPk4MCu00(ta#@u(*pw<)!-{!s-MTKf>Z~uy_)SA7b$|78jwIH5@-2IXas$
zcx-G;lA;KH3JZqCgIGKcMZl$M^%C>k{c-MR2p+-WbC#`C+3&*Y7gz+bfE`DWzGR)s
zsZ72)53ng^o%rJUdk*DJ7x=FG+a`=37F4o<dw!Z(E96_}nqrP~-`6RHl{we*{L{4?
z=JZhgB+qp*e=Y-RV1=f#3&-b-SkDqn&I`SB*;vmJOy$#+ZF9NU$P-Kz(^aeHOxQ3B
zrmAWGy19I86sW@sv2MY7-<%ceHo;Uq9q5?uykjQNKW9IJup+@!IbFSBdgJXg)d%N_
z5#)#yF2P1=oTU>RWx(Y*-JA>SZo$;}qGis5b+2G*ez9fF2leSJ-&}=I5SY&LfBAVo
zd+6SVCDryWqv7wpmaaU*+xgC}Lc`nb_O2qsJ5Ba3r{QXwy~`W>_}=eYtZ3u2hDh*C
zB#btQ1{^#27}JUNSoRYeGfNuL@SD)$MQ-eYOdcmB#>mAz;v{?J;$hJeD|seYgb|g`
zZZ(QcZ0sjt^E*InJhRTb>qMkMy2|E$QnjlYN$~}L7?<vTEFQq(JQf$QK=YY342(fE
zDn@LyjDSfsiscC4{<Z>Zmss%mfVh%9^!$=FtpJ!U2?ryQ;m}aHe{f9dj~pEi^RNdY
zPWlqagy9PxI%x7yoqB2P)8~o4Ix)|I_%RT$1pz;2aEFaT?J<Gs*hGF=?2#8X>+nXW
z6f=$z13yBGyfpTk`8X&d9_G4SD|WH1m;JCuUAXLL4_?kS$a&E5-sKK(e(OtT#Vq!h
zFO~bUhXnj1IZx`-ejJiRa?yoJ9-Dc|BbwM}FFBni{*wnW`XSYN%^Y$k{0O5uwkjiE
zwu6{c&z7<8#&(#p`FI`_M#|Yg$JPNA*A=JT#6ORhPzPM+lt5A`Mo+{?4PPk~3)x*)
z-tV`>Ih}&fB_>Ws<*g@Hxh#|qP}@AH6YjOGvJ?B^>y;kv&BW*<aDh?^d>pipq)YR6
zFW256pNAQKW{X4ZNS#aVDf~lXH2-M>hq_t#XI4d}$#J#Bim0=5NAk7BNQ~y1n1|<C
z0FQH-hX-FiL0fKV8TCjl8byT^ozb1qp{N>2jluYPfdT!14)ei8&yBcT@KjuqFMHtM
z4NCMzDiafMQxEkfe;^_KmK4iA5XM*spUE8~)o{yg6$AKf(-_w?oC=EAd#~8_X}#Hr
zRbW$28}#RAd*Om>9*qQ6k%pC^I`e|f0lSVb%}_O#(7BP65@#~SCN|i3vI+nB0&(LH
zC$y6$Kt1Dd)s}i5#X4~^&ui7q<=WJfZ(5kJdGC`tZFS(9&PQ|LbJ4jMt?bw1S-Aq(
zvmsgxxIVVq=U@$gWnyo>=E&fej0{Ay!GI;H@&o!#X8ie5u{^fw=gSN(3|`VzEE2V^
z#73zfA<NjquZJ@K0;~73j5n$~@5AaS6aj~{1_M#Xa3pv<tnO+&s=-B^x<}61`;P@f
zLy@EXV}lT-w8Tt$h=txL?&G^+V#nnB>1+nyf7J;2w@8NXt&d^t2`FYW!(&n;NM`i|
zM<q43E&~w)<!Z=G1T|?T`?ohj;$^mfs!RMb_UzPNG4~fp<d;~ye*Vo7bq`&}PQ2+8
zS?v6qr$y^^f88~I`;5Q+)x9(R^;7F+{Ck-1tz{Xv_rCA%i{1U!KV^FNHx;~9l)Zm>
z!Q1Y<{q0$A*BYRFN670DvfeQndIWa%-3>jMFG-kE%^Hr3jU7`XJ0_db_pnIr13Y=C
zN9=YimSXWZqVW0R#H3m*Ft37bs_<9;sx$FASdkFOmYnC`^N8PP-uGMqTnLHl9s5#;
ZLC05FtB;S7lgEN<r90W+do>0m@_!v+auxsp

diff --git a/src/fock_state_circuit/visualization/__pycache__/plot.cpython-312.pyc b/src/fock_state_circuit/visualization/__pycache__/plot.cpython-312.pyc
index bbb2066372776a6235bf588d53795118c75c1f95..c0ad9098212b2dd3ed63209dc36be87499f6de33 100644
GIT binary patch
delta 803
zcmYjOTSyd97@jjbv+eG<j-k7{EnWgq*IGy2b-g@!YZXz$OQa}n>+T49w=?6Va*?D`
zv8Xr(CInGE6g{L2QA!VqLXtt6h9W)mSWm4<K~&f|>O=pT`M!@i|Ns5}&-|SO^Yb8n
zMX%RUI40qq|9a<a{FjWAg#r|NBZ34yLQljKa7nUT7F`}6^z`{;q2DL<xr4roZrK+J
z3yOSvgQYb9HIyAg-*j3O%C@4GvLy6gr%|S}=K#2bS}j@HH|-1Uiya%uO(<#!>qtix
zes>+{hebraxdt@ZkQgUx$s{CX4n4}P)I^!6YKZd3p`G|dGZV<6D5x1?yevNIt11&t
zj56LMejd#hC25|5{ZdNFJn>tlbvAz8!?8`F93c}m3;F78#vk#8(TGr#zz2Pj?27cb
z!hNA`5lZNl&<GwPF5fmBqp2vUq<>PBxr$zegRAD!O>_C0xqK;csb$%?*s<DlX0s`<
zhM!Y`^@`v}b11f-JH{XIXO7?GtZSTg#_)l2Y^7PBcxULx-nBH_*y%0)=*@xgfm_4t
zeD<m)``33Z=_0Xs@aM&qMrNB~!tRiWTy`T(1N1h3T}AnIWcyUr;r6tb!G}HEo*trG
zD2rNoP=G+bvk{)hP8Kz^VuBI@nSh<Z0D(aa78W{*j-qy3Q2h=|X%wy40;zEc{||03
z->shNo~pjxIp*Br4N8eUok_k-3is`7#3}B;X#|B!7QrW_uyjbTy@oFuEhadDUO30W
z2&$;5Nx6c*ZF5izMfycoK)fKqJYp0@_iG?GO5`~Vk_i>GnUJH_2L34i+65K2-)@53
z-$9Q0t}Fwa^V%MxFfCW@5{l*NS>sGgjKcJ?b(c^qLz%Cy({VRQ8BbtR;m>vf_8!*F
l3T!K8)I`E*^sF-l|Mlh0bYmS0_#KMiZkw(K01k$6%0G3z@<IRr

delta 805
zcmX9)OH30%7@q0w7U)t6;n9Kys}QhgdB~dtgOs#{U}>z1i3<d`i!3cI+1-L@c||cm
zOwbG@kZ|(ifrIE?fOvqQ2?-Zo3X*v9pb18#MkU6_4E<;3`@Z?V`6u(w;v)RB0OQv5
zdL6*=cT#Lyy!j&TlX>6)U%_3I1xe=ozTWckvf@&%!7tQEVz*$nnqBRpPwbL8cca-Q
z1v&&?kvWH`)CO<ad;z~8Tb)9W%f{IQyw|O?DuPXv_@Jm1<mYp;#B*&p-y##Eg^xH~
zw<rf&ed66#MGW}4E;Zxy7Ngk*XsjX)ebvRF6WLbPlf3|85T#qPsBL2%x@__5V)3gf
zyuxMZjYZISXjE04oB(UUIK^vj176c~0f0UVJ<d*vRanv^2}O^ZbE@NcO&>K2BdI<*
z1Q2AC(mag!EC5n;i1ujlh#IC+@d<3x>S4}rDrOJZouB{VKtFOb8M-4N`cZ0L0dnOP
zGqk_8Q$Uk>PB?)+<`oX?8WP5PMtjzK``;M{)&s$HQ^}60a>G>lihrH4)V6YN)wAPl
z-@voFee0t5*3_|S90&ste@Qb!@3Mv+*1Ex3=aM(slHEk(G(B}@ihfctQnPDF9AS?R
zqkySOBWv;VmO*K?F<J^?$!j7FVblW<h3WWzwgGyXkH6FnER;H5fMBMDk*wI2WC99-
zA_8|XV9QQ)2;D36Y1gonedtS}myJ&u(Mx{3-%CeBwsdu-=oe)iBu9^H3$e1qMrw!9
zY}pEYuLjCP`j}yCI4!Bt82WA>g+r*{;V|9Dxjj}AIs@H8i&yBCrCf4R2z_u!@F8;5
zUWZ5Ov)W~f9VGcN0uxBCZ_Y|$l9q}N0H#%2n9#v_mPwg&9{^1ASHpx3PO3la>vZfR
xQf454)cVF|$jo5fpgzA*N^6OfrqMoUf=?0CbSlNcK*KjcFnmSlfRH`z^*>!X^#}j}

-- 
2.43.0


From a31c026f8b27bc7eda8076f156612532a94bf0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 17/34] fix: circuits with a Hamiltonian gate can be drawn

---
 src/fock_state_circuit/nodes/quantum_operator_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/quantum_operator_nodes.py b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
index c57f336..a91b8c7 100644
--- a/src/fock_state_circuit/nodes/quantum_operator_nodes.py
+++ b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
@@ -21,7 +21,8 @@ class QuantumOperatorNodes(NodeList):
 
         node_info = {
                     'label' : "Hamiltonian",
-                    'channels_optical' : [channels],
+                    'channels_optical' : list(channels),
+                    'channels_classical' : [],
                     'markers' : ['s'],
                     'markercolor' : ['purple'],
                     'markerfacecolor' : ['grey'],
-- 
2.43.0


From 8e04a4719ec9960ac9d0faf8b1006ff2b4db7af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 18/34] Restore the tracked bytecode files to their original
 content

---
 .../__pycache__/__init__.cpython-312.pyc      | Bin 2445 -> 2527 bytes
 .../__pycache__/circuit.cpython-312.pyc       | Bin 49708 -> 49458 bytes
 .../collection_of_states.cpython-312.pyc      | Bin 66423 -> 66213 bytes
 .../compound_circuit.cpython-312.pyc          | Bin 8754 -> 8836 bytes
 .../__pycache__/state.cpython-312.pyc         | Bin 38316 -> 38651 bytes
 .../__pycache__/bridge_nodes.cpython-312.pyc  | Bin 1914 -> 1996 bytes
 .../classical_nodes.cpython-312.pyc           | Bin 5851 -> 5835 bytes
 .../controlled_nodes.cpython-312.pyc          | Bin 8249 -> 7982 bytes
 .../__pycache__/custom_nodes.cpython-312.pyc  | Bin 31822 -> 31925 bytes
 .../measurement_nodes.cpython-312.pyc         | Bin 3220 -> 3302 bytes
 .../__pycache__/optical_nodes.cpython-312.pyc | Bin 30856 -> 30678 bytes
 .../quantum_operator_nodes.cpython-312.pyc    | Bin 9246 -> 9094 bytes
 .../spectral_nodes.cpython-312.pyc            | Bin 13024 -> 13106 bytes
 .../superquantum_nodes.cpython-312.pyc        | Bin 15841 -> 15923 bytes
 .../__pycache__/node_list.cpython-312.pyc     | Bin 11876 -> 11879 bytes
 ...cal_values_component_names.cpython-312.pyc | Bin 35172 -> 33962 bytes
 ...escu_rohrlich_correlations.cpython-312.pyc | Bin 37954 -> 38036 bytes
 ...ir_amplitude_functionality.cpython-312.pyc | Bin 22468 -> 22550 bytes
 .../quantum_operators.cpython-312.pyc         | Bin 18042 -> 18124 bytes
 ...ollection_of_state_columns.cpython-312.pyc | Bin 15260 -> 15264 bytes
 .../column_of_states.cpython-312.pyc          | Bin 48876 -> 48958 bytes
 .../interference_group.cpython-312.pyc        | Bin 57212 -> 57244 bytes
 .../temporal_functions.cpython-312.pyc        | Bin 17130 -> 17212 bytes
 .../__pycache__/draw.cpython-312.pyc          | Bin 53140 -> 52902 bytes
 .../__pycache__/plot.cpython-312.pyc          | Bin 23866 -> 23805 bytes
 25 files changed, 0 insertions(+), 0 deletions(-)

diff --git a/src/fock_state_circuit/__pycache__/__init__.cpython-312.pyc b/src/fock_state_circuit/__pycache__/__init__.cpython-312.pyc
index 82f720328997eefebee24242ab8744479aeb9d39..ffeb2ea6dc3439cde55bbed7d4ea01b8ef21e721 100644
GIT binary patch
delta 153
zcmeAbzAwyknwOW00SM;hC#G%Wxx-Okm24FgTAW%`9Fvz*X=!O;Y98aCm+DfKS(d7x
zs}PWpnUh&i91|R_5Kxq#m6}{q9OIr@;!&F9oRgoITCD4rS{~pW<CdSC9bA%FlIomU
wlw6uwVrXCxQ(TlBlLi!zF9u1(Cqran;^Q;(GE3s)^$IF~aoFTe7Uiq}0Ouq(7XSbN

delta 56
zcmcaF+$+p;nwOW00SK(zzh-UZxx*o+p<k3*kgs1{l&qhYpPU_ET#{Il8lRk5lw6uw
KqCYu;vmF5Pa1#Fj

diff --git a/src/fock_state_circuit/__pycache__/circuit.cpython-312.pyc b/src/fock_state_circuit/__pycache__/circuit.cpython-312.pyc
index a06eddcd89089ba99d028a7f53e545f3deb99911..5a9b6b2a7f1b967b5bd97eac74597dd6a42d4006 100644
GIT binary patch
delta 4045
zcmai132<A*8Gieo?!%IGSiWsZPJG02d>>eL?AUR9#C8%>2-L2LCB?Cv*vgX}$Id>S
z1PIL3X%c=qFc79;hB9<w5>k}_X*disoI@+c0UN_GnN9=Ki;5(LX2_K8J{@se+U{8E
zf4}{&{rBI0_s!kU{qhi(^uAWBVn}=M=bjzwZk$aTQO!)bZtMSn-^2U+$97HC)zwzj
z^!JW=TKSQ^o?J)n=A9$EMtuJMzB_X_^W$ERE8y?nI1*@|7;4!yKIZW|dOVYxTl(9^
zU88-0?Ez2A2=AI036zzV_WOBP{|<r=`su`=D>~C3`(NUlT9$4f8V^3L`r1+Y8S&{+
z#*HxJrSAP(n<is7OM3xf<mLh#d|F$NIC!!-8<L(@Kx3U*%f*F=4h1Ch=>#>vY~2+t
zUqYsqIe&m(whY2}RSG<En?K`T0v=!@8b)9EY~|vbhA{clHM}kf>sled{=6Z@L|wwH
z8x5n;0*2w6;jepIVXadE>zrkh9*p|n_+B%-=9F_RM(~}pt4bO7!OfjQQTh-<OyGNQ
z34_rAbwCX>4fRM1s5wh36Akghj35o@;7UV76o;n9B$NzKH5gkGdJ!{QFJS`4xJ4|D
zTU>#$acs1oEPx|=<zq##r_s_NNvCuMSst54R0t9*`9E?}!Yg-+a**7b74z&;qYX*m
zo5tSQ*u5@Kq>ON4od&7l=!P!!5X1Dd#D+>xLrzn+OweGpHwTj2(xIVAskX+K;I+Y)
zCOZtZnc$%&J<6vGhPkHOMTK_t9*kO<fxCzzeZm1F9B4M60+I8X=B^~HA0*orZL>dw
zr#jORf`RpGqTVTuG``0W|2dplpM&nZrABLVOHL6VX%h^$aA<5%A>)eiy{#&#iDZ}q
z&Ym;Luo0WE0bXm_f?O+@{+m!46_QXPm~ZVv=Kn3inMiIN-7u~r{BvoiV)-qkfVM5C
z#)4BwFbavc8mw}s)3briv=7wLHPD7F@!c0sPAXP-#gK9uoC;HIcaoTd+gf6~b)Z>=
z(uhBq(7RC{!@L_+P`)v~pL1jsNQ}PRsM?*0)7;k48sbA%KpM44tft4UuD~+ln8=+S
zs84Wb;q2i=mh$QqC&d<*IfQVgw?RyonRa<u4$g7g#d9LXnK(zx-duv^QOu8KjS18`
zn?_EEn1j0CByv!X_1*$V?l8~TT<kF8Vh1E-1vYFu&d$mtj9?dR0bRns#A-;ib7DGV
zLJrQrGSPD03UBN<??1fBz;V<%Yb7V1@ve*OPK^@`Gm|@GO{Cwd6>0HhhpKQjUWHe?
zSD#>o{D3+xgBh&C`VlmzNyrs|wbNoQa7%FhoFb7fg}Bh0L4#)?D<CGtlUO9INo2zs
zTm(luX*Q4wB+nNkyKRLF&Mp-yzBM)%#`i^VunaE72s=)(@NHvPR09|`#WSXJlgd(p
zOWeg`RMry8AyTE$J%MwZlDLxS&Svjrco|_R5gE$HOoU!5(&gfIkxHO0kIs=0Hq-Mi
zUyI9dDb|CvDKqsH*+bfd3S2?fNos(gkFOB!?cNsi?Rxj>SZ<f}sJbd~rFVT)Ze=f2
z5xjLJ5~YP|g13DSUPG!saY7>0;%Y#>7C8~-b8#)q_m~kyQs6H=Mv=-dtd57Tl{uQX
zA_4PoUMvCYggjj9?V@Yc)y-AJ`4NL_Ap9@d)8JCC5nkyvB07@~1-+V#@7H-7)d{`5
z7G2c}eYM_h(aK7!(rclZv34%usi44$K5~h{k<A%q+ax(Mi2Q`STU79s&FylKZL3E;
z!RBp8B#vd}hJ7xNFEBDb#?!4?=7v3iWu<3qVz-AUuYqORcAw8P=3eG@Z{G(u`|prS
zT;ske*fOv`xHRBGs2-ey7lY~d+&~gqEMR_3HC(nzp>L?1eN7Dy4%Mew%0l|G-)r@u
z<kbt>{AbH9YKxbQj*!Ly$*$1AbrqvGhK#EgbgSp=p^}z`qSlML)+JlsaouHG%>^#x
z>{+Po4b^TA*|reKTK)W<u(d9v$zIY~pY974HZH7McTu-4F7Oh1i4EE6kLe;Qj7AUB
zu8g3~-HjAWX%$x)g|-_Gd#qe}D}rBm%FD{T(J|?V`jUv6%%F&gF{LgV3&O^NP}@Bb
zhS`rg*^sf|8pD{nSTfdjL9Zth+IH-Rk9Is3yl=QeA`9KIXQ7A>eli+jlRr*U4m)L6
z<jS2$^7&fjPFe86*mFoWPU6D*VBD959)lykJ*X}Cov(vKW6%-!4E-orFkwSzYp`qY
zGYIVsUY*>F6iNmg_91Vscz$%#28Qe-ygpSZHwq@K#72lrWvEO}qL`LWB^alh!8h%&
zn2)BoBqOv|t|AqL+(d#@Fq50;SJPESGfr`<PO!kv=1UltL`V_LaC5o>O+o4YOo^RA
z3>=%v;S5o$Ff%1x?Uu)j7B&p(i8Zm^#mrvb$KAzDA}U0#)#J_Pe4Sfyf*nSLFLAFE
zzSB`YF%d<J!8`WXNzub_?0`r1Ceg;f58ocxj(jk1FjI4$0Lv2p9zMYDg$EAW)nerK
zQ?~aYc+i$f@5e$5zm_8HwA(_vt+aa-zB<^8-iGEweMS6}6nTqu%i1x|<ly$*zFi}M
z3AbliM~6Osd}#X+c`gU0;MGIj@-gzB@Y}hd;XWBc8IX4W$;^m^(~h7eecGbF^rF7>
z`S!5h`Juk_x`Iiy!k_PVl*u@48!OH`!g|M|zA~(@e5Ye^(^z=Z7|E0-ww?WoVX8aW
z>kO0J$zGR1?*k9d)MO~zQKXj9SBDf;H?H*}Cbf^faW$RE??!)*q#|PT(~7DWYtPoc
z)UoL74?Fuq1D>$c6WTGnP_grv@*{oew~-`7O}B4ZZ1;xSy~G%KZc$_98)%M}wXu}X
zaq~LM6pwQLA`*r9^z06e?9HM^O@~4CR+72H!oIC6=#;VVutl9V)w`CWPEPus%+i@7
z<(mn=D^{cl$uM&AqfeS^o1o^fE!jdYG&C4{GgI4e@^B`E4!3ZUF+CjY$&r#5s#i-d
zG94-K!PrG66=WEmdeB^qSuDleoFsnliPxN*R4y6eewZYzl3Y|udV_eAsgmOOixewJ
zA=bnSF>#8%r?7@Hl5(sh?*Xl#ft!;#Iyu(HvsOq77~$2Eneah_>h56_pxk1^>UedX
zCJ!P(7syD=DB?53A8pKgy^xH_la-2N9ZnX{osNDML_H;!iiyQKIQ>u-#|oO@@<S>P
zy#ZH#T$iPbR#oHRe|}(*9A7iLNy<+UtuQ%TS~p1up4#B|k#1S;a*t08?eg%W6cUfZ
z6rl<Y(fp?y#ZyoC_3+18Ku^NGN2(>HQZTUjOe$PFa(BgxG_ieTugK?9F{8;1sq;Uz
zSG{ApWbX-Uaxd4^hcvmDG?h#Cnnk-aY<Di$8-qXnNfR<&wJ^53kzYoXy|GHuYE|%G
z1pjulQH8#M%Et%MZg}MJt(nxxLUq&`(T^`gXJ~g4*e6~^UkB%(a2g2rKc1^Z3s7-7
zFFQnM7isqZ>6YcZXPkF?c>V(lorj6jg~Y_qNdFeRdwKx90QqO;QAh9(XY?||JmD$i
z#CY-n%KrhV&()$Ag01I1VM#H~eR&jJ2+qFThV-JDKT#evSv~(-_}%%B?S6?=w^X$;
z!cpRKX=Ox8iHMBJDZ3`8<W(<x_G|mvHYBZHvKK@+N?fjMh)5|x_!^o~L@v?_##VVv
hDU!DbOD}XFbT&Bs3YMU)@XdU&a%&RG;IoMNe*!+i2%-Q0

delta 4144
zcma)9eNa@_6@T}={eEv*mi<5w7Fbwd5m=B9MLv`d1w=q=5)(f{V0Sev3iwzQ%zcW+
z7&Ad3p3bypQlm-Q+7Yd0lhh`iG&Y@yX;QN*bfB1N{UdFi^p8@tO-<US_rB$=IL%D^
z{<!bFbI(2J+;e{Socmrs#7!LL;yyAO4Gej{Eq)#N`<IvEx($vTkLd63^9+by&-OlV
zPsc#8GwAQ|c8lJ@?w}|1Cxg1sK1Y^(hw-5xqKoN+nE(qLhAgmuObh!f3_1y6<l}+}
zQYtDDf{w9l!nPUiFMz)9*-pHoBisb|xZ)4SS#BUGiiJeiY+?soDYL`Wih=Z}$@d5|
zCou8uiITIyX-{p$Q#-k&E@G;C@1cmP8M-RpPMEb)cQETiJ5Wz9!-!j<uu4ijjL`@m
z)KmB9gPC*l);BU3!Ig0<jMwSlLRD&N>i;Eqt*WKW7}dovK9!>F5JF7w8~G|?hk5{Q
z)s=ARhy|W#<&7HI!$)^8k~(OHH>#_Z88FqvAq!mDYgxuAx)C#4Nwly*wPF{ml{p`m
z%t+c^HQBc|O2e74MEHG;CZ>^F=~QzQx^o<)x3t8#urf=gf3?zx^su(6#n{C#TUmyY
z3=)rdB{HleK;bF}>|CYSrOlg%zSnH=SdWe8h&X*D6Bc0nRV%!;%8XppdAPCaA;py5
zByaZB`{5QO9o984+nypz;~((%c&!BzhOO}Am<^t2)Iy}zlO-ht-BCLveF;H@WEAUS
zJWf#DP3T290mpY(6sb`O9BWo9uJ9J>$~Y^s#F;tb@OYgby|B;&jnC@i&aoiWyW~Z4
z^*pjJ6oC8&9@$`h{UXJt23xTWTcEdo1KRz7=r=A_+sH8~hT6BRiUJ)~FtJEZP%%8$
z;6V2Ot%kD^NRhO`uGLv4x<2U~7u~d!2&Y%4En9>WNr*}0Bmo<I$@|D8w$m|Kp#%pn
zQeZ^+QWDk$<m_<*P6A=gCM9fea80&MAFt&>+ZYATKiBZkJWtm&@+d|2IjvEUB}W?h
zhf{H~FQaD}(d<|N-NlN{1-ul6CrhUVD`OryaM})5nHBk<5pFixxYR&3sWZvT$p#aN
z`gEM`%alQ;#;G_xiEbu?@Ukdx0F7E=T<2(#ijf2N7{Qt4Km#+D>1B5?UUr*`EXu^0
zFR-H;6(eOynL%^Ri<r;EAUOr{G0_mSDOe*Lb1iTn3%mZyfyG$iI!80eQDy=wW!;Mv
z3-bFw#sQ}SYAO2x2#hrI1vxky=lHT;Vx`=L^$Z(ud^eg9Vk_N5y^S71o7>0XTzc}O
zW~4lv7g$UK2VXYx+9gtcEaCZh2{_lr60XgWqq+S7AFi$CQNaToLkq7hWEos=|7f$g
z5F9P7G2}eg5=F~<EqtN}dwltFY>Eg~AXCNjC@xqR$9bYzP1(bU8X{0A3oPxm651ov
zB{&|;!!~V6bOy%PC2EWCQd~^<^ObzjIg&^ENTs-xWQ#NfDPGwo{B7N%^PUyccebxs
zftFN;%K~-Lr3*)?9GAiRHmgcnMu_xwLM*?(Ta{FSmqA;b9g5ntTt%Rnh8<CkTORH3
zczbH9YXQPs*fo!^6_N{A1X}0{(~5}_#Sz5d<=|+4P$T8IQIvnY&Fo&TNE7^iv-ZmS
z+Rc>{Wr{q}UJ+=OZI&<Kl?4(hufAd;#-$~C<HDA<Op!l?yeuLoM#|hvMwxQmr$VLc
zo3yA6@TSVp<xR&_g(6MJtjgQhKRl~nJ>>QG2fO=vXSp5z;H=)?JGjd)lDoyMrnA4_
z-|GW$>mzV&>ptGlJ<#1tt{uHzf2eVr51}fUc>KCBYv}dw?by?~bI?B!+TU@H@J}4G
zL3+L$-s~)4Qw8|Ev$DOUHC*!WRHFNA)?}h59FN0W2B){|i)`69xdoHYyBa3W95!c9
z8gtGTUpMB@c$&kW4O14^Y2Tz}Nmv*PZ`wV*X-{O+p2<x^<P&PT!WnZ0Cav_1`tb6#
zlcg=;(sf}+>vQcl9VHiQFV=+}%Z|2(wtIJ>#G82y(|OI2yynTgmavdBlT><}F&GEn
zhA)G46v5ZNrAr*GXxwnuz%-%_D7<0I)V9v4HC-2zf0A}7ZK}8~{G>Rp{!M)0oQ*CU
z^R0sY{->;8Fian6WB(d`-J!4b@DKk<I?;<-=>&a|iC)wm8sENFWty(s9I4zqS-Ca5
zZD=xYICL`*X3euseYZpNN4LH^Q+3O%@6HWf*>xUe^^+WlyUF0zi5{9SUFXjJCp)`H
zjx_Y{H#i`kgcE(cQA0@8-^`&tXdCz)+8QbdIuQ~=>j!^;(5cWDd-fofG~@o)tPX72
zN3JW91zUXTo(7`b9*i~RfRm!lZ1HJhMT^Lhg=0f*tyQv-yM+~gKD3y(RS{ok$tH8B
zYpw9rP#&ybl>)Bef<*h6#jEP3mD@!sGAVJATCz(P=pHV!*ojrcODwRXIV#4hk}Q%P
zE)AFDoFST28>6V@B#oqw;g+ALWZBS}eHCgn4mS??HNT{h`54xWbdu(Nb|gi3hlWQr
zuv-j@yC6K0$;+{$4OILH{ypME!;o<>8GRS34z{DKFnVxf-mHm&wqNY)>g?*?*&Q4f
zPf_s?s3s$w>fF^&*n>Vl=nu7Ocam$>z#JRec1VLz68N4zU2@ZrGwrB}IBG5rMI4Ps
z+h<IU)8^|Y=cmrBALgFPJ-hO9@uahQ+%)5<IodoW<bRf!4(W#r%5{v<J}tN-f_qvh
ziU>tl_0vs(NK;_CsV~yhH`%nCT;l8577CxG>)5*tV{B#bvatW~iAPG3^i624l!-47
z>&oukX+g}QjqJVK$xKcwx_391$?xF?637m&Bs-c*HSgyM%_|I7^YWTk8pK+{_RiN~
zLNW~fy`W9#&MWZiXPoA$g})3K1vuK1Qb;XRjj6qyoKyRJmsLq>titLOM^fx0n~O*`
zIg)2p3^#~0Bs-KIS%Nh1#E}fO25X|~;Peq*r6pAiHq_bNn8jMmO{kPsD0gtZWRS0+
zCkS?Uj4)5y3jFwpjs6kj%MyZQ#0KJ5+<XPs63I9$;5gcVNFCRcn}SJ-gYi>oMm;vg
zyo!h1mmM(jtno2&J&8W#wmkpiA)gC#kgAX$Y*1!Mzaqa7vgHJFa>%`w3Sl$0$mhUB
z&>QuVA#I#?8Z&(PY^q6)NDRqwq2!|m4!sYq=PQhHa`hDli5h~|r=DNO&KAJSCsW|_
z=M(DpP%gC~?j^&l*6ZsV?AqxUdnijr^$?-lR=Fa`NfoIdB5jl6MmjV>*(jh>@Zo4V
zveG(iIo5R`MB#gZY?l18<ugKhn9un%v+SyMDzhyjq?6j4ResS&aMzC-SW><E(OL>W
z`Xbe<AFZRz>Q*+gxhK5Y7vA1;dGl4<C&?csf0Pobewc`mIWlIov0)*7hBr;~t_bfs
zYrW1F%xRdSve3K7@=*GnMnnbg-7aFBo6!JIy#3MQ)f(Y_gRolAiMK*u9j`H<Td?9}
z2kM0vPkt+f#=y--_bPAm7Tuw|*E67d@m+K~^udc&2}D|Tz7$PC#rZ5pgo@12;TbZ_
zYDIsa=<|!>HOhJio;vR)CcaO`58#vY+t6E3aN!DC9s0|Kcum4Dh>V+y=7;{&h}XdU
z=5ll?wD!##EGe+rmwV9V(22`yP`qsB&s2sdVHLx0>!-iX+^tfZX384pI7-|sDxFhP
zf`lNg_>Pv6x3|M*Z)bWMkh**(Gk1=o#LbH8IW;ASTy-s))5^4tahBfE%jEh{`8&-B
Zy&f9*8CH=t{;&7)^=)xzv6xEC{|8^_g_r;U

diff --git a/src/fock_state_circuit/__pycache__/collection_of_states.cpython-312.pyc b/src/fock_state_circuit/__pycache__/collection_of_states.cpython-312.pyc
index 27853260baf72efe5e0451d27890ec0ec7e58ac9..820e8f12f79b2cdefba79c1feb45e1d4a8fc350d 100644
GIT binary patch
delta 3451
zcmY*bdvsIv9lyVun|IRCCT)_oq3MH?lon`3N(Bo&E%JsynaBvn(nL%MExSo&#hZc0
zgFIFz`rR32JjU7128E8nt_}tW6(1;wBvwg`^@t4JJo6C>i1l>1-}jaj`2F$uK7Y^q
z`Tl<Q*7Mw-H*y*0^?D6M+qVn6PyW$xB;(>^>z{9a$o;dBj}N(9g6%amlOC*gFKF>K
z@cyTL_6ob}DSyzvCgg5hVt4Va0bg@C<euRV&um*!A8c*$g(~Lz*1GE5kF++gY794p
zef566xy>K096#P2;+x%1QokpJ0Z;Q##NFH)4ANoztu3C`Cp{q;u|X~xmYQ?fJuKK?
zvO-;`pPYaR;pOo9$!s{f$^_d^Yh}{~HB1Z7g8zk8_xdN3j_F}D?g*QpJV=JL5b4+{
zs05`)H)PY8oLc%}iw)SI(q*)&1*M;)dl9DNHI5Njf$^xtj<y3bVuPyo@vyR8B$FU-
z-2o_TnGfWd+3a+UIPaOs`I;&^-*!eId;vVM%MORO=W~rrSPo5_%)p*C!r@N~bTtg)
zW*H_Ti*R0;b|4!LcNpOIrUrI02cBJp8i74X!`Q?#or_qNidR#e&w$^*=u~e&wS@va
zzH?^%OH|pwT+3o~xqZe_d%f|}+E{7rn_SPLH&ngGSyA1rtEFZ8tN!#<R9BoRal}h%
zV<olml7?7GLvP6={ftcC2w(3kg1>Fc&Qnr@+|V$l()2jdX-j&Ik41HliBor7A;d2h
z?Rif{o`diHa)I#TYx}kk(kag98sNywP<Ln}*(;ts^qGq6hJ8nEWIMcdbQ9SF^N!^y
zcF|?7D}-lP7!6)uOUNH?_pELT^Zs9+5Vsxs4<TN${rGv}=$0MiXeMnDdDu9l;fLzx
z(jO$E5EOxID0Jt-u9Krl4v>#btVb&*PmW<pTvVJk5^`D0?I|Sd*#_oCTQj?oX=ayG
zibrfhmN(N%2Ni6HFR>juj){zv{8^Ge%WIURb)B4MS%i_ahv`lv8>KgAmm*RSt{z^Q
zLMZ4qr$1K2PS;kGjzNt}JJl{^3g&gx)on><QA%B*lu`s9N@w1cTNsZmZPAQ}rF}M>
zX)CEsd+$n`TadQ4k&Yw>@iS92wzZ5iw`rS<(!(%iCM=uc7vF#5B1dk*o_Ai*bNoMO
z7yc-Pqy?ImSZw?;s&^3{?*M)y!YqX65q3c5yTt{+M)eJZHxZDS{ALPYN!lhzzB|V(
z<={5?w-L@#=wg#5ARA2JI%gzy@SYp1l}Mb62`1QmZc5!=RQFLxa+C~DCArWq_%KhG
z&hQHnG7zRBU_Cnv`9jo>Ap9NS6cn6aL^^;!@5sOfCKWAht5^7V{!Q3_{#e#;(4}wj
zt@SjmUK8|(+q|&hy=plQ@&p{w*uj%jz`x!rQhZK#5_$!+7d}znP;z-in+-Q~;tv-V
z5t&2nhItoXC0QVgzEY%Onn{FQ8Xbu)eSE(<S~WN3nD>sa*ReQCT_Z{;!Z*=^5f4Tu
z&WV-JO^mIMPFfHf>w^4P<@(g9Ed45yDrX$iNPKi-Y;@!1h7WZm31?m0xj5!r-0OT4
z9i@qi>G29rtipp<Sz=6me9W@gm}O`=5>>O~RsL9&AFXls#4hO^sfC0tmZTOFMr|1A
zU%)b^Rx)tK$Pe_FF_z_ZWT2m83g@r`$<nrg{wl`tD-tTBC-J(<?lP&)$m}kw>TQe8
zHBxa_u67kG&Ki`6qb)9n=7PoGssQx|6WM+l)P3+<2Q9~RnX=(~ZqRP|aGA;kS->FC
zx1x76Tn!jGLFQ4xs$P%&>Ydw<qcv`&_o7jz5ae*=hzSn%7QnO*RZ3+<B`|?}={i<o
z-9^+ZnTSSEH!#a{sHGJ&fdY&YExh=lnbPa^Wky>uO_Z9TNiRd{tD}`P3bV~RL3Q8N
z{y42ed7xApNe<CdCVIJ0M;SU~@<2Jt8hK!Bdf>a#tDqNwK3tjh2r@z6txT7AB!lk$
z0cpw%f$LVK{j~JIq*KZQ6KE`3kEI|r>Zz8_>efe<1h<{7NA9O%cJz=DV$-G1*t{O<
z<<B6zgYYiGc?$EL`LOKcg8PcBaHnw+9sw`aCp|fauSdXg;*TTP5gHJFj<614sDvSP
z&Rpa)4AtBf^j}1XA`~Iuar1p(OgfENeEemEH55Vy3gAjMDd)<lHAvuCa^Y}gX`t?h
z267pW_>J03^->bk**4Gal*86fzEu{ZBjpg+_kE%??!fVemp0$2<^KSyuZBq%T)BFj
zY!!EZQNxnsV*K9^lTu2&G$G|-oL*}5-B6^NfbRxm_Kt*>uSUU)lSa67(jdP2Re+EL
z*#A4#K<~v!7QOCO5@n3=>_U?wViJsjV)|ih)`#zKHan6N9+e({3p2!>3h8Yap2;kj
z1udRr#KJNHCs>9fR>3sHTenrnxsQocDJ`<RYMh)(jU+RrSI9(dE!tjoB@tNk;n>ux
zyOXV#q8XHsxk4`O3w0;0C9B-@=t)Os*h!P6MyZ|KZAeowl1I;@r^hr!$m<@FULfV?
zF^-{62|iEd>5g|LeR7aQQllB;B+gFwrqNuQ_TH5=*9Z$f8p%<`BKCZ9RZ;vZjq?9Q
zI6)zVU(9Z|Z{SPNb&A5esrZKg$s6U0IHeAM8gw_8%<jQ3GCryIxA?>Url9BPreK?I
zh}FXkxtF}yW4Jt=MB?gvrxpHsv*f-4>APvsZpCCff(^Lu%M0^|DE}RLQV7=&aCvts
z02Y3~w($#UC)N141e;d)g8UYYUqX;-tq-*X!p9Vnn%1CqXwf0Q7rjY@%Lr1%<Wmjb
zq&(?Ons=*6aRN(cIkeq6j+K+2OW!1oSoedO6z8aC(xNHYJf|}!VJnQ=s$;h5xUDv3
ztL?Q->u0j{GYM=N7}SqJEhWSBR28i6vx5+ONc{T8213q4<=`^n6kiy8nJ9k3RWLB>
z_FPg0FAQ2>>+M?84s^anfgT<^Bz8dG?e`ye4g(g1T!h~t;LjcZIl`9+-y#em5c)67
zbMWa;Bgr^%@TY2G&XO-BdncqAl+g(@uS-g*Z2JsCmaO*^xnY0!aD7*Mia|Y5KK`(=
zYgS5z#^r45bvY{69+gd&8+z)mGgMp?$T+!SZ*z*F;_!s)C{im3^Wen9_{zk@N!R2-
z9F)dUCdw*OGE^>?jolyWa;BtcO2On<uPcL9G|=ysDdnc?Srm9Awe;gnZ^3z}&qlaF
zAt|Rn8f)75z1tVC<bzx-Zd1xeCjY3KvbxpV7WCEfncFAJ$e7I55yaGKy2+rF^8ODe
CW3MIv

delta 3289
zcmZvedvH@#9>?#wdAE7BxoMKNNz;%*3bnP+7P~D4B)F(7w77^5FqE{54VBiL6o+zy
zIOC)2ma+2Fp|YqjyN<1NT=e=tR+fjZ^01P$xCz0*uHr1HIH4`DU3J~_yCKD$-Sfxi
zob&sg$M2r|``&Y3enNijNxA-{PM5*Z;^Th`EH%BZKXs3zqKt2DZz~J({<7b+`Pcb^
zp~g_N&)>rPJ6b|zusbV9^xtdFWjC;Jx!(p593`*7lc80Fh3L8hS&g89($KFI8bKqV
zrLejtWX3J92&%m#)e4gCrv$a2@@1y_)Tf|5?PQM)<Ux782`+UQHT`l%U<Jmf7nK`c
zmBCvZOIY3x=Qh4growZbuV$!T(eBayK_AU7g{Rkh(%m82-L~lt)>|c>*;JFy-a_D$
zU2drB&4>10t5INmvdP^@a4pnruY}&0v@#OVLE|zG>bB`%WGF8?tfZSOee%h{EX><(
zCRtK=k8U$67GrqgqUV>f*&1F$hw*xZ4Pk~EJ#KCbZ6@^Vn;-G{+ge+j{h^k&^>9y5
z5lsAk%5Be4=N4u>o5?Nd^TtZN(Gu?mO~+=w|KPA~X_r1;Ssklf9<5y7r9Z8ndB$Lm
zyFD>?UDRC{b9<w1@38x}QAVL#4ZdBj@{yVIdNikvWpSe;W~_)BD`Li)sIew8ry=s|
zRgu~UJ~jH1nRGBo>KUUWqPB~#@A`s}fcWf-AFIjZ(D=$A35sQXTM2nye7Ao>P5{K$
zo*;X~>OXz1CNF|*zn%2L?EO!Xm*CL;Jn{mZ-9MGQC$jHeAY`Zb&4H5y)E9F+1G2pe
z`dGAt6+e6ZiUD~#0qChJ0~YxEP(J+Yy&}lG=o052bh4RYhFQtdX<6ZHSbfk8j~yB(
zNpZvBLL$o!%%<aWOTu=6^)gR8{OnrB&#s~g9CiryrYt;g!GU~+?bgbfa6#AshmY7Q
z3#gZqy!IwD)=fFPlwoJ6nl_~(C<W($WiQ<qOSq7RR)ep1N}-S?SURa~z?$|Frh8P*
z^pNf?^tCGkwU9h&);Xk!6x1>ogM`kb9b_K*)XwWZFuh+(9Af?ZTNUIgB#v!UEBJS)
zkKYe%#~sRdX){p_-&GV_`w5S#<ex;`j(7^O6Z(%&Dd@)LUlAW7FlK%$#YL&r1>YRM
z(;|(*u=!(%;}rdDf}`T)pz(x>6hg;|(o7D08bmI<cB0m@2b+Bq3Hd{fp$8N4;KO`~
zZ-vcgELPq^?Zqy>5XZcM5D|x9#>r)58*D!5(PK;r<@%0?)-?0{hw$df{m!S+q{F;#
ze5k#(CDhT>oY4B)+FP2Nr0)uB{&=>+MF*{h*E0$s@v%qw1$~U*AgBk=X2%!T#};pj
zF5Wb*QRKP04C8w7+rec-R;XDA^H04+IJkD|&8iH>S^U!G=Qj@*l=W!i&5vGX7|(n*
zva+#H8>w6x_0&fi?jH86NT$q2cd7w{kpkl_k?JMUlBMy|Uqot_MN993A0p+3(PB=w
zjwJKwE+lyefrAtG-8C_~oMpH+GVz6ppBOD+tgFZbO@hKZ*@?u|j)~DK+%h<wKFATZ
zv%XAyROYO&P=7c@TVJjG$f&8WQ+|}ILe8`{$T9|J85-1ZDO$yP<WMy9Y@NUaCO>?1
zjq8PKC9NSgWJp^Dc0e(yA(<cxWYKh+PqaXW%|r>+!#>0KbqUGC3PBODVLGy5B~?=n
z{f<Gy8yuV(o~BZVHFRGGrnyCpq6lZKWx|<4hL>5DLwi~w6XqS_SV0SOPFsiz9)81=
zS2P($W;zIIs!mXCKWw(>1WgM`JE%||kR;*(vX^56({U@AiiU9cv{|MMl%je2CC=TX
zq-xZMW=*aw6Z8YBwBEu7`jC}Um<B;UpibNA@>l8dvOpE}nRR(LW(TSz1-|@gIl;#>
z>uwyLEZ{;5$r25J`<%5Op_BLz5GN2P5rY&<itW4+v{&qNex?z0;!Vce5vX{+6@dr9
zONyh%#_$Ues22Xuu=<QunNlDXk#(vuC7-X*8AS{sF#q{DVhZ9MymO|QLoxARBHAf}
zMhYj4ooQ6n(@QIu#lroGhW{0a7CNtaXN(jT$BO1gi{{3P7DkH}4j27$lrd@UB~fi*
z*B!l@5zfA2$umoaId|7Wu%7)+H4UA~5>fZrS(Rxg?&(F`N3o<hliv;Be;FdLLi_mx
z<QZ|sSJf>2AUFSG4v}wV0($7VV9reEsUnmG`!3jEXk8whzc7vH@fGWRD!P(X=mZW;
z;;k2#6LJB1zn-h2U$JnukPW;4!okggS{pVArlwRva`0FKrwp3~E>Hx~VLRBrQD^0Z
zEum>YThN24aZ?Vyg>>eHt%6m^#P46&#xjCjuuXb$1#_SPXZUjk%YWtST$)U#CJnAb
z>kO&R>ZDI5m}x%~`%UaxBCu$~wW(EmeY8&U>S-G133;ix(%Jm`T#k$W>GXwW(D72C
zH%;DvA)UkFe0pEpgyGoo2aM?;X=WdjGu>ZH;whEx7tE*Y^8@8lc6Wb!7x73wOwqJ&
zCR&J1v|c)|bi7Ti`~k#!6hZufaXOt_csH63LGHL$d5&fie;As^S140jfFt9kaw(Z7
zbAZQ(y>XG;kV-L;GImLEE-0?JXZ=5^;JNUN5!Hy_A)E+FL#?plN=czTrHWBBk0I#y
zi^hjYi3I+5<q`h{+D~ZkDrs$8)7;Ac7W?`(zGZF8`o`AOUusH4QuOC=dIE742WGUj
zHu*L*wstfJ`A^aM8RCY%FdV#t@?q;$kMbyLECladJ&+yuE{b`BQE!mmLHW7#4$_L9
z*DR#ms#!$!RM2&2Z%*7bHRh^~x@u#t1yR?6Vb{V@#-dw9dh{dt(_{H%(fqRE{Bn5n
zpFilz(4Lgx<Ybk2aN<Qmj>F3D?<ce1g&(bA<oiydlo1-49O{2uOlqn1Zf+-r`Vj>^
zZ@lAawG&kT{$$qU=&&Mk5jzksAkHH$A}%8sTv35ggZd{2DG{grG@EcHg=2R`lA%?k
zV$m4Z$&%+f$cjf>iNeqq+P9#8W0JvkyyWJ6rvBTLGVF|)ZDR^-TwW=wQy2~}7-ML4
z`Bt_}Vc6|YGPK%PF@{xg4Ph#);y0Jat8TfhXv0ORAM5z^o02kYj7%@>3-%W$C2vy6
z<k-ekZ3^lbU9+Q}5U1`GjX$BF{}k;T`8_+rgbWeGj(V0@iFrp0OJ-zkG!m|tyTV}2
IPo<;(12@j8MF0Q*

diff --git a/src/fock_state_circuit/__pycache__/compound_circuit.cpython-312.pyc b/src/fock_state_circuit/__pycache__/compound_circuit.cpython-312.pyc
index f14499b9056277d731ef171f2347823203a58e7f..be2345157f06919d6aec37e7563e83365c4b34e1 100644
GIT binary patch
delta 154
zcmdnw(&EZ<nwOW00SFY7<kB|stmLV0O16p#Elw>ej>*fZw6wG^HIMPnOLZyAEK60;
zRS3w)%*iY$jtLG|2q?<WN=+^)j&aW{@hDAl&dJY9E!Oo*Ee~*xam!E64lYS7Np;RF
rN-oVTF*GoUDK1KmNdt<<7lS0?lOZxO$@#ej`K5U&P=U>lcmhNLm|izM

delta 57
zcmZp1-Q>b^nwOW00SK(zzh-UZS;-@3pkI_)kgs1{l&qhYpPU_ET#{Il8lRk5lw6uw
LqQ6;{H(nF~2s0An

diff --git a/src/fock_state_circuit/__pycache__/state.cpython-312.pyc b/src/fock_state_circuit/__pycache__/state.cpython-312.pyc
index 82f254d6671a91391e70e9dd07858ba4dbee5a46..b1ae33848efd82177ef2e67a7aca753013e8347f 100644
GIT binary patch
delta 832
zcmXv~ZAep57(VBIY<IJ5k<&youVST!O{w7rfraxU#Sbzy=;qw+uI}pG=Dk;!wrK>_
zAIa)OKl=C~MS>P2_m2^U2~ki#W)g;w1V-3DO+ze@&Ykmx^YFgU^S<wS&UrRT{CiHA
zKblNNfFox@?09v5%AA@z9O6s4W?7JA&hHy2DJixWaSeXKA&LD0o6k0SMV}ayxu#aO
zQ3`YkydrZ|qEg-GF82lef}CG3gc{4a$^hTpq_`BJT$K1eQ7J4a;ADyCIxz2)HNna6
zC|s;M793b)oKDd%s?E8BMF|${iNt6934xaKSoF6&idI|)tPU_rj#8sEPjv#GxOf<V
z2#IDcv!yYT6g83ofFrO#Md&aUrV%k>qySGw=m>S27|FpoR<KHXbPwr>4rPk_QQ4J5
zvq$e?Ch?#a5&bTWPP$D7eONCY59_)NXs$Ss)GIWa=ubz#T*>HxJJo2~nE@b-rfeyN
z@fA(j3)Jo<A~3X@<9p+I+(QWD8ql_TWw<_<k+Se2iN&x;@qyrg)UMU1wVLq=LNLbB
z8n+Jv?#IsuQbA02^#q+kDd1jYdYqCV_xTj*h^FRfYNB5V#edx;J6%qX$SYC;R%HBF
zfYkzhQW(_gNrtt^?-}a)+S$F(**n+SyNa7&HL(VO7oH(D0kGE)n8O&oz|Wk2-}bg`
zzM^@--tv;4cFn*Su4y>Mf3df0#Cp~YbjHCbleW4CWF8tfjv2?zW9F!>@&h%`)<v20
z?`$@*2&bxlSgg0sEhO3Il5EjJ$GoL7%2aNxCxH{S#MZLCWou`foQ~bTPIHtQXN@Tp
z343R=Ociv>tWAgWceIA6y(d|{BWw_GNxk8%q2M3&vu~S(R&_2|N5O10qt8Oa64f^N
zn1W~3`Jrzl^r}-=9}#dsZMb&N0I#b*Z!VCqMtyT<8S1Qb6<k-))4Q9NOGcRY8)zsU
H#Wwx}K`8;#

delta 488
zcmeypmTApuCce|Wyj%=G5M1~_%WU>WJ}FH(RsEvWf_(krqGbKF{N(KT;*!LY)cEAg
zqU6%d68+6HG&{|?IDuN2f%vn+WXE#F$v%k}ChsejpUh$@Cd?`c6kp8<B!D1=Z4PTK
z^W+QKVoX__lfNa&bF$R16dBhrXK_!KOO~H}vRDM9X>xk96eH_o##R}f8o1tC)*9v-
z)_90PK(dB4m?4>oks+D6mZ_GpoI#Ug@|ENl8k%fHN<i5n1t4*YB{{#K@)k!*YH9(9
zRg?gdaRd^YY?I%oh-wPwrItfIlvo^}7@v}vTvEgh(#Z*zDP{xmCtIW{GBQq%O084A
zV`8!0ccbqCmE&3mwJ!K3U35ymY?AVklT}{s0*CYmJ_beA$xdkwx?eaLL?x$tPV}6S
zGTFa_^M;ge2WJoe4StCW91=f2OEZ{wGZnJ}jovHm!o@XtU7pzH2WelJ7$0uFn(4*D
z_+zs|-alqW@y+r@zATLDn{&(fSs86M*H$lPVGP}@*l?GbF?;j>=DAFaHJj(QP2*(j
p+-x%8Iy0l^W}YdJ8Ck_yB|le9{yOzLe>E4Q)+YuKS)>iL4FG;CmbL%@

diff --git a/src/fock_state_circuit/nodes/__pycache__/bridge_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/bridge_nodes.cpython-312.pyc
index 6a2d5d22d03273b8ba0a813c0de06b0249b52760..23ce811955a44e9890f85bdbb6a1d6de89fda3ea 100644
GIT binary patch
delta 154
zcmeyxcZQ$mG%qg~0}yl^iA~$c<I7s#l57<dTAW%`9Fvz*X=!O;Y98aCm+DfKS(d7x
zs}PWpnUh&i91|R_5Kxq#m6}{q9OIr@;!&F9oRgoITCD4rS{~pW<CdSC9bA%FlIomU
xlw6uwVrXCxQ(TlBlLi!zF9u1(Cqran^72zsi(`_CGE>r1<MZ-2x3PX<1OP1_I8guq

delta 63
zcmX@Z|BH|3G%qg~0}xobf6dy+<IAdIq+gU;kgs1{l&qhYpPU_ET#{Il8lRk5lw6uw
RqMw(al3J|4`8?}iMgW4B79aos

diff --git a/src/fock_state_circuit/nodes/__pycache__/classical_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/classical_nodes.cpython-312.pyc
index e14ca99d91276e5a64ddbe46489498196d3a6749..97c228b34e8737aba8ff5e3629863da55ff375f2 100644
GIT binary patch
delta 538
zcmcbuds>(GG%qg~0}#|6iA{6g$ZNw>-=1t06Iz^FR2-9+Q)y{wVQL=ZpO@-Vlv$Rl
zpsNs&k(rZOP#hB+t`Ja^pOu<iQXJ!+S>jQe<eZbAms+grms%d+9OIUsoE=<}Sd!|T
zS(IFwSz>5l5K~-~9FqnVk1qyE#3w^!V)F7+Qj24fa}tY-Gm{f@CYSO2V|v3dxs2DQ
zel;V=X$%ZC3|TA?7BZO~!@!WvRLfGr4il|mf$1pXF5!fUrZB=pn;27=S{Q0sYnW4*
zvo#nPikLDPYME15(iv))QdrX&K{%Zug)N0Wg<}p!jVW^#(CAubp!M7^!w_^0YYkHk
zV-52f&ec%IF)~y#YjSN~!uO47^L)X}jNELum~&F|ZZYR3R!puHmQiO;%&WY`=~|JT
zT2PXipI0OYG)<GONCrq1selMo5Ft7FfUqbF8<08qmasqL+R0iX@&W>emwAjfq+B-(
zxd=o&A(OL38d;0vL5lv0$TI3rmKIf!*N2+{W=Vp$1|Y%^L>Ntu6Ln(Lo4io;o0J7e
b0HnJ}7D)W!u*uC&Da}c>E3%%vQA`T}%gBY#

delta 559
zcmX@Dds~<HG%qg~0}yBz{m;tS$ZNx+Vya)1T9B__T$HSzmY<v*UtE${k{X|!S(IFw
zS)!kppORXvzj;3oJ0p`8<Kz>(HuWwH{Vd5$=?uwCv9b&dwJa%&H9&p^Q??WXLj_|I
zKO;j8Llz6j5>$}Q#K4fpl+47)z{4<+sYjj#XhJQ^YDS2vbf#L?5@wi=8djKi5qAkY
zOf-cFC|VEZH8G|zw=mSQ)i9^9WNR=m6ftEo)H0{ArZdzqrLd(lf^a%R3VRAi3g;Y-
z8s;jXA+^jvhjGFTL(nyBHB2>(HOy<cRzsc5$WRIN5+m4w<qVqKi64P(R|rlmDOM=k
ze1z{66KfGrfMN4G!OM)?thbnRQuA&xC+1a7?h%$z=X9+|PAw?O%+D*511i#FFOmUL
zMJgad6+}pa2=&S5g+*CGUQ?L-LfD`2*klV4d8MG@YXT()$|nTQP`@VXw7})Miql0E
zrz@gPmjs<I36xysDV>}y(kS@zlPQB>DPu7!Q2PQUCjqX>Z$)Go^(J$Rs>thsOb6Qo
zW`Ql!2Z<Sg2*b&KqE3vulP8LPlQIVh$b$%AJTm;^u*uC&Da}c>E3%rrP)rK|j`w_L

diff --git a/src/fock_state_circuit/nodes/__pycache__/controlled_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/controlled_nodes.cpython-312.pyc
index 1be9df4ab6631c6596ccbe9c7f5e164504435d66..b56431ce6016ab96d755073939be172b3f88548f 100644
GIT binary patch
delta 1028
zcmaizO-vI(6vuaVyZzd33zdSlSZh>*HVsvRf*{ehP%Z@wnjTmKxU<wkX?1t2g0o^g
z;du_mqzAm2l$e-$@#evs9=7FBW4L=V@!-jmGyQ;ui!Yh~ynQq8zq9+>{dDvFr1(`7
zoeT;6%e~cCAH<*biAlgPuNlN5W{oZ!i}eJ<sDjS5%Mg^wei|<U0(jZcw|#sE+p&X#
z-1;DKV6%+DK??#IfY=OxJQ>#3u#wpg9neW;fecqkK-`v%Asq-nvC(gZZiyuoi^1nD
zP(;As4GXd$KEq<SGt7xl#1qb2fU7)rzUA1zH}D+rRmR;Zz^kN>sqA<H?Dmd)UAn6&
zswU-gn`2|6BiE$4ypm9}kCjj)H2)x*%Rbbkg>-0MEvzZBu1U$PK2y9O&lU2D7MWF^
z%*Unag1o+<ujooVtIEZ!emNSIG*y;XNqtG93rliyMambTqDgWgud9VzPQhmPv#6K6
zz8B2zLB<t%r`Ly4)uB{PNF8_sX8+>8S2A7Fcj4SFtPjMh1F@PAtCYO}$a(`3)n<@K
z=gRcKNDy$Xta;tk7C63L>jc-~LvXZw@KVpo7R#fiPL_NJOP;bMBw2cp4EtZ6e1j+7
z>@lq5$d2~Gj%H--+7sI!k70vu=)pnX*;Ln-z%Z~IdP^+gkcHgtM2R!(um{<Z4f+rd
zdrQ3GAf}!pvv!6Ydwp$Bz-)4rUEd6kfB6@2JTS;@tUSf}z<Ik<9VQJw{P>Z@k3R;I
zr_><1R>M>-Q5hwo(LV<V`<LSv8W8_nWn3Q96E&|a><f3y^kO|-tfq@Kq1cJ@KyaI$
zi)J{!FC;$e^`u-)$~8g8Wv?HHPJiRoaq21r&wwc$4vr5`(c8tSG_v?%HgcFnXf{nH
nNo5AV3C2L8auDnV{#ja~mg*RhzxIiZ0xaf~N%b~%g(Cj|OC0F*

delta 1265
zcma)4O-vI}5Pt9NZht9T%0jh(K#B<wu_nlmL4kt&7$gu5Acz6dSISRm&9*3zZ7@bX
z5k>c)2M%&ECK40Vi+aMd9$Fw^3^x<KnM#NW9MpLWg@$NklQ%Ov^X8j*^UbT8w{?~e
z7K;hNS0eu&{qoxK&EUU}5qg3sR)~j8k}(HD@^J-?vP*})F@jLY9_Es6N?t-P`|e<j
z{_Y1{e1NN-HQHwmqj3K~N%1Qj<;RMlGctlA92FGogMNLO>fq@2jsdihny49c8XU{K
zS>dMj2r?8*v6io+>1ln?K!lG70iI&@ow1UGpt@yrV?J78THy3D#L>=0wH;?gzgyaH
zv`)++MHMdDdn4!y$sX5G&@<K_3J-?8{hkroGcgi&1%lKYa;fo*y94zwliMg!jI0?k
zseD!Jdc&_*b;YZ?mc_0OTTU$Z+KR0&me!ZxkhL49dOnHPm~?toY<&@4ceTb{t;=Go
z7VlZH^~TbAS;iF{y=TL?GNG{+-kU!{3a@ZO<Pv(Q^AI2Mkn6edNF7Wc{&!iO#IlIh
zh0J4&fB=w<(IYZ@f``iyU6O*3IV@<5f=Hz|r4S7M2!#-=kS>XIpxFw|9I1FJ`$7u)
z0%ISzC+x*O^4|>*v<=wHiRhuNlg5L7l9r-hOi#`rVxS_ms&i7|V8*l==76bfo+zBc
zL%Ga(E@GsTVpI$?OA%=Hybv(~sF*}L(28l%p2Wmxif0pNv%Uo~X+?iYEdtLLPHlAb
zsm~owZqV;nKRSxAS^eP{c7E1-h6e)yuU|d^m*f&APBBphA_U!`0#(i#n3>YHZmR-W
zGh>~h1VT4)Hv!d&uach#Nj+rAH|Kt8Uz6O=&aFG$ai<&1O)av8khPbjZsLY$i*<}b
z`Z#W6C>^*-Lun>U&ATYI45c>itX-380mUda69&^l)U4dE`P-XqnAP0g<Pk))K4%LX
z&KTaC3LDA{kMr_zlUk5hUDm{&QqP2DHSAmE`&KElnwe-};<EZ6uO2r><9XTG(at>8
WOq>U?W4JILq!WH`johi?{L()n%@3Ub

diff --git a/src/fock_state_circuit/nodes/__pycache__/custom_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/custom_nodes.cpython-312.pyc
index 965944da9cbd6884ed7484d0a0b5975c99c4201a..90eb2e5c74ce9e5d39c9d4cd213e59dcac844fcc 100644
GIT binary patch
delta 1601
zcma)+Urbw79LMjuy_C{&p<7cFhEkA1nSqrDa5Mx7e@bB+bmgz}LPKwFN1@z1&b>f8
zT05OFnD8)j9;Uu+dm)(*)0@Q@eOfeoFmb?0rj<8iVvI3re9#x>`Q6eCaYoO>r{DYg
z{mwbR^E<!Oul_)H|3v(kJa1*_c>HlBcJo8Nzb5;p=o7|O39EvfNOg3aZhJ`>k)=Ky
zUy)qRuHale5x=Agqm!;6R^}y9Q-y)J7Fdq-CKOpxn}?;<V6Wg;#D!69R+D<;SX_>4
ztzNI7Vo``udsqcWSj>9_S&2%jATFz#vKW>XJzI01vvzU}bDfEz3`cHUc%I1h<*1#!
zR$rNIU>JdAm`qW|tQA4xFw#Y7^KEK{5oH&sQtfGTnwdA}ZHKwgN4;pn9W`aR4G+i2
zET}YxZCXhoF3R0Td5swAE!Ip04_U7-BX)PW#dcsJirYy#-8?EI52jD>2h(Uu%sg1C
zxEQNhNpQHDeBkDJM`0bqT|47IPU7`fk&ziI+5ZoJuz|NdQ<$$+lDUSfL~L}B{RSS{
zj2%3Ut+j=`nEC2L?33SYdAfvLZoH3b^d8S$&ThxG)R{9~j$g`|7UQzcHot|?8hN{=
ztz*woac%kC*h7bV6YV&fHYe^xAGL?J+d~hVLtj_B-s%6fh~;a4u`tfc_5N>c_PtW)
zRz+yHbX5PX<rTzjhPS#%(EEw4#TuwA`@DmvB;NW8{bcKo#XLZ_#XW@eb(x1i4idlb
zRdiOr>H8F+MKaSFat?ysaJoP(0<iu?r^j}D67&>BQ#p=+7Rlp*3N%Pg1R9)pfm(9K
zq9SWpN#L{KPmuG0=g^|A1SI5@!J+_`04hb38M{HR0gR1ZpbqxrhQ2eQKJvpkpP9D9
z@k}w96`s|*hh>(_mZdHFN5MU=Wd$az0@?u`0C-p!E(DhXl7Q2I6!~mCc?`cyHLd$>
z61RZ0jtouIMf@O}0Y;Gmpu80HtWV4F4EWOk<D}<6jR1mx^MDXw6mSYKMvGBRzMpsj
zdG(S>5m}>;{E=;cWam_btW4Ee;2y_zOULzFQ?dL#>SY)1v9to)f{#TE86F-WKTdn}
z^z<7hlO<iEquG0=rvHETpQ2Z@S;z#M4|f5e68H)rUkOm%6gf*gD#==0OW_{)EEd(c
zd@&(m`iL3a5BPh%a-6z^H5wOHmLoLoN%@W)E+6?>s<s~~-59Bgwb_rBjf7*X7LNWK
zU15Ir5c_10?z&j@)S6B2md@x)b3T^atl9GEcjm)3+o4_~RVyjG2pPKo##Lbb*2?P$
z3B;XzF)M)iJ;3`EO_qEkUI&Bm3=HLh&woT3eQWrQ=Ka@5YreyeM6S~{b4BDq(nd4+
dHhD6i<)KB0Gc{q>VCRg!l-giXH`!kc{sqm4fl>ef

delta 1488
zcmb7^O>7%Q6vub$^?Kv=N8;do)ggAshmA=#AcG=PTGA41TIBQt#dRDLIcvLh?5yMU
zCb7dBw?Uvv<U;2F<%Bp@>Y+kQ4u}J&LIM>iE;%%{Dul!VaRaFbIKjNNO`<j&*u&5N
zH}huR$2@uaFLe7)Wck)&F;V36Nq;Y0|HLvqF!T&BrB?EMQ4;ucUdS#K<%FDC5Hgam
znvr=ipG*~b^_zhjjXe13&~xZ1TpQ}`byC#4j-o1t3ZpPdU6$x#yTT|GUYUH%pPeTr
z+B%ffSLm(BX-d?AQfP^jjSwBaBz+w<)FvXkMsjTrUK_TtZH-k5zZiB{<)#lsDb$h~
zcg*zRTf-Ivs-I(<p45`{%E*Abqh*3?OYi+Ib&^A!_=ia&wl0{);~zImFjYADe;w_K
zuQ!jHD;C+&iXeC6+aquJdRq40?*>CrS&!C|xZEm_B#o8P<9p@Kj5=tgt!l$RkA98%
z)oY$@nzKo6a!p;oky%lf$KF9`9X}X<*1y}?`@z(ez(-xz{C9o9JHFtKJGkp~y*K@b
zL1%IQ&Qgxv%hUI`_WSljHRrh<d$eYbs*8LS8ERv(S{#2d@tJAJ6tY>r;w>SYy7}~P
zEb}r6Bu(K$;0W^y$PnHR#L!8#<N41K%Hi)1pK*j>UE6el$^i<h{{;_cp9LKu@Y<vV
z=tV4sx)|+*fZq;{wAYP7UX-PLPC5zuS^Q<FALZ1aLMb${3@ajF1t1Z48EF{w20**U
z1*#ddc;Xj5n#YlFfFaXkC)4xYe2;n~Eb3^5ty)$0>H9RZ3J2COpX%qxgHh5XpoD$1
zrLMYuIU^DzO42y24g!wiPiF_?V<5F=1VK#@keUw4<pk`%0njRX6;v2712_dZ4LAef
z0cT0kPW)Qr3FKEx5doRxyFuYjQ23D-@Qn+D96Z<Djy+a0$5dN1-Fz;!Ja<z^sy!SJ
z=r$3yzMfZqjc@ApZ3?UA5;yhepc?ydA(g4V2~lB$q$7YT;38mO)x@l`nPf_oGjds)
z0@ElIGvfJNN;(d{F9D_j|MsR%7YmY1{F3?AMdG*Ds*e4w!qK$T@lc!2LI56z$GzR;
zpC*$RA88l9m0o9AnxZaJ4?MUUIi|jQzVE<Z2|M;=&74&4T?pt5HSf9FoZ6jT;JAJB
zgfFd?+ZQ2u7eIT4f@)g7gis7`m3-A0EMEnDNZ@4~!}dNbXrrzv7nqNDYO|^BYXkb9
xo~FhWKje9t+*vo6)46;?ZX_4O$I4GOlHGR~R?4$X5fV_;-SU<W9mOf-)ITCAVr&2a

diff --git a/src/fock_state_circuit/nodes/__pycache__/measurement_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/measurement_nodes.cpython-312.pyc
index f30e7f97e79f591c0f2f69827ef133e66c33a3a4..2d4254d70688f2a0733ab4c2b09d04a77b22b2e6 100644
GIT binary patch
delta 153
zcmbOt`Am}MG%qg~0}#X>iA~$c6U|xQnQRpkTAW%`9Fvz*X=!O;Y98aCm+DfKS(d7x
zs}PWpnUh&i91|R_5Kxq#m6}{q9OIr@;!&F9oRgoITCD4rS{~pW<CdSC9bA%FlIomU
wlw6uwVrXCxQ(TlBlLi!zF9u1(Cqran^72zsi(_(A6N^iWQgc%mPvK++0LT9~F#rGn

delta 63
zcmaDRIYpA^G%qg~0}xobf6dy+6V0h&u3wZ|kgs1{l&qhYpPU_ET#{Il8lRk5lw6uw
RqMw(al3J|4`7S3XGXQt)6(9fr

diff --git a/src/fock_state_circuit/nodes/__pycache__/optical_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/optical_nodes.cpython-312.pyc
index 360437bb59c3a59bedf68db01e27d80225970ad5..403b9fc39061ac77033686d36aa4d83a38b008ab 100644
GIT binary patch
delta 1535
zcma)5T}&KR6rRiMACzSm1s2OsH<kihWdVg{OK6vNx3EFjvIUCBz`6_rJFtJ;*)3G6
z*ecP)m^L{NebQJTG@GK;Oj3PmQj<QI_~c7N8e{sRrin?Hs4*HN-gB2|+w6n$@ZE3D
z{qA?pJ#*&m9dhRZsrbffEfd&t=Jw3Om+yXFv3_u4Q|^@}G=*wXGJfvJ5pQ>obSkL?
zsCrg$wmC;*YFtfg(%7VPl%|#xIipE~Y9^SS^T$(3MQaNwtD}BtASEx4Wuh6yuTnXy
zW;#1MB#p|_0*gm9+=$499VwZbS2QV=&Zu%U9!csq4tA80X85V?3%ESrYCmr{Z`!K3
zX2dE5fe0-46tuTjRXr3tM_jh(4JLsL`)l+>d%y%YyN?qQcDtME?m80cT4Yg4DpZvt
zR9T2eGBldh5-tn)J%>#`W=s1)^E_?TER4g4o+;7*e|f$l+xmkZw}E)|#=ff}8G>8B
z{f-dI>lx%kdI~xAj}F6*Pa={Y>faKZhA`5C(2C$<a37s%7~wR+7&Hcg<TZUU&}T5c
zfRPc%1qaCo`cCjOv3d$4O$dh&nh{=N=^eG)gQcFvP$4z4G5BG4nB0a?f4v?Wc}w&b
zbwK5#b<r~z<8{pxe5~OR`4N2}G}5DA4}UBYvpzZTk@y6bnKMuu>W(5DgR3zIG*8u%
zPTe;(E84l)bGXH?6o*fwF4K64AZTwwH0;p-maZGg3HWrb&N|FgF7uuld^`6f+@Gr>
zelW@|lGWSgLq@U;6R`trg-qy)O?Qd(IPwz+2@LEN6u`hqR?q}_4}Oo`ENLWQpYMWt
zcPTuxR1Ujpf=y0~)v#s1CNeF1_GamiC41FFF*Zw;(eIdq&C+Q-wfw!<dzOhGNu0uf
zsZe|&F$?he=m4@o2AYWhTuIHEZeas<Sp#aIGMyva@N;^Rti$+9clE2Nwj-<~RB{II
zue6rtN+>%f&{Ft%r6GVx{<LMX>9{hjCNs}E8O+d=DA+{cGt4de@s%@d7u`U39pM7F
zXoHI<bmBW_e3*-?Q?z#DG4<n)%!ajvmx&N!-=dhrQkWKQcI@BO#gxXqJEMp>Zm{cf
z-}0gk|L4-|I4kiY8ot4;ER=sR-nIYwSFD)oyRfMZ91Y@G{-cj0n?#sKm_>LQVF3Y$
zk>X%bKf)@)E4n3PBmqA$+O|D`yolr;BSs{7lhEnOn>n=z&wKNwoR$e4UHN^SmJ5g7
zzgRg9>EY~bNsF5q^$q1kw%%i_k*&<e)0;OJ*Z>(Kzna}}XEjFN0pD6Jxdbn+9jJ`$
PBeu)l-vnG~4J+**ut0Fv

delta 1701
zcmbW1ZA@EL7{~AF?fVLC7YfLzkgap;;@a_6nSd16K_#Vb8Q{pEwQtZO^yRdq5Q~T!
zvn4Z5pO5?C%#s;oOEfoeSqw2|CYmfJ@L_IgV&scU_@eb?G2zQR&$$R#7frk$e&>Im
z`<&<e&*^je-OuFwFQoELMTK5qPal0W`PI9hR=#?`*5ahGbjq2f5$AX+@=7q93*}<L
zNP<RY5;<ow6^&(`(xU^%^<*55J8tTul^$VipCHU@q2#FDU(i0m>J=37IH6c3SYHr`
zaM7w13c{oYngUgjj+&|p%7Xg3aar|O!uChE(^9o7K1b}P&}S?S7VD~|1*b=CSW-|0
zn?`jEaJ#LCC_&}2X{eRG7i-{$aE-#Q1CQ&7+Kp*FkaO*?D5?_4Xlyo%lN#Z&YlQgW
zq3g@$bxYl^0@0<(`IGkzrhA5tHABa0*T6TiwXVU{;qldpskPzh)z0KyL#iZV-nw-2
z8HbW|NDn$b6p0UB^VQTbN2hS9dWI#Do<@yFOZ{-Gdz1uW(^n5GNB2R=TQ4QtBcjcR
zUk@P;BkT+tT2yBcgNPw`aKcL#C8wuTsUE<{i;(g5k*m@z?<b<=97b%2gNUaPqs&ch
z4VGXo#xNqgKs5w6d_MBEwCTGlwm)_<X8qj~J&Q4JDJa*td&*BX*mllH`O_bXL@zZA
zT@&}ByCo$xV$O4jZn$^WNm?b%NI*34BFz})yGX*!Xe)V1`grt?s{I6p(PU8-%7v26
zMP)WabF>x1eg?Z{cU6qK5j}7t+(10=ZP-p`r9Z+4Rb(2h@rI-F>X?GRg<Yi2qvorm
zFtBCvBu0B75g#H~;EVW*B0%81fok|E@+2f3I`}*>r;nPpdRr~`wtB0#`S>rrZ8R&d
zo0mnl0(;0#*S|h#HtveE#@;JknQT+`cd<M=%fQ_2*u`$98H{cnf$SNhxHZ~`@FHGd
z$Z8lG!I%nYZnMjgJx1Oiu)u}X(*J01Xh~0ydAOWzvn*hJ6Jj1=<_dmHAC6FT&H5gj
zb^|xNb0__F14Xl&#@tMLDt0cB%st)6Fh+YZ?`?z|!E5$xE55Boe0>A)Cgd|#J9p5C
z?_BX~#^?PbdnHplRhC_z!^*IhVCN&d^|J$iT#8n1VqUC!d+G8_=%LmH-fv}zZk+NT
zdt)ig37#Q+i@|T#@*|TEXXlv8*TiX-qBa;zhNfe|U=hBjon8G{h5zRaqZ&bsAzns=
z5pe`w0Nzp5gK7>@kcP7=;^`$S<9(N>B%)YnLWQEF7Mffo4VPM>rM;x%QZF29E$!jb
zARKZ0R>9?<^g%A5IMl=nb@rD;Hm<W##YR@f^=wHat6tJie%CaCEgvTr;hlUfxdhkp
T4d&z?V!YJ;P{5H^Gi!eWC$o{g

diff --git a/src/fock_state_circuit/nodes/__pycache__/quantum_operator_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/quantum_operator_nodes.cpython-312.pyc
index fadddf7836b6cd0e456d1f428c4ad6571b07c091..0bd99ce4a2ac9a27b5a79681360aaf4bb0fa0075 100644
GIT binary patch
delta 671
zcmbQ|(dN!~nwOW00SLC4=A^yS+{m|+rM@rODkiizwWv5IFQ?Md(!$g{#y>CBr6{v3
zRY6xFAR{v;v!FO8I9ws1C_gJTxuiJ8J+s84G|4$9KQFad*Dtj^z&XY(KRG+NB(Wsb
zIkPCaG_%Cez#yi$C^;q#C>~!7l88@+$i(F3r=%9g6qY9Dm6Ybj=WqVPlF2P2!N|Zc
zouLFsLO=~m4fARy2zzoLvzTGF3j;$DcL^&@K?>t)sNyC@ByEf}Oi*o;1q3DP(KRt4
zG}W-CFlTE34Q0w?sAWxIsR3$DX9C%q&XmHM&X~dm#q2<uBZV`C3rKSVG0z<C8rCXy
z29Pe^7KU238a9yL8s-|7be0r8pt<~WSZdj87_vAg2TBPGvab<<*~-XJ$*d{3`MaPi
z>t;vsb!^PJi4~JS$+|LfOtz3~<1Yd_hoMLxNECAbiOJXHTAg1584V0y%ouq1FYp^&
zFbclR9daQ&`g(Zj#qiQg+@*Jfq%X)sUlxkFz!P(ao9_a@<^^r%%iJypO0K&nUvy8t
z#GO3(iToPYB2AEq>lK<!3xJFwXCQHlH7zGUv7`tXNDM`VAVLR3<bViW5RnTa@<2rX
z<a9+PW3bK)5FgCSgtM~XEDU{n6x|uKH?t^RV3aBcsRB8pNF7N0;;_lhPbtkwwJWNf
I{7%^b0Q4iSUH||9

delta 813
zcma)2&1(}u6n`_>-E5NP(_kdFX=8fO`Vp}z9xNfGF+G+Z{H&C)n{1P8lXiD&qfCsb
zcq)D{q8^HPHwcoGw~9v*Q-lhoe}sf0^rSOsw-p3&V1B<h@6G$Yk4L%J6TZ)0uN&Ao
zZu}~r8F}yfAPiqj8in~<(lnH0v8GgJOe=2{W|WelES9WfwWb!#WP40BJQtoLfR|t~
z+&M%bjv^k1Cz66SQ1H!ufQF<Z!rpaUi2~G-;YUCpI}Q$1FhCV67{N2V92400hV*t<
z%A}`)k>(%5h~WPbCQz2_X7>4?l{}Vc|5P1z{riZBYE!5j1u$?48lox^)`Eulgc?>Q
z4XMuED>HVfZq>uMk6rJIhlqEaY;sZcJ%omnIC(B{5J3}EKNAkD2o0IF>aq*(Gm%?C
zyNM`*+XCMY-^>z2+d39%e+gzq(O?^db|~^ra^!WLej3QiE@PDWHllPP9Hk?%f@{O6
z%;u}rf=*xfW3&}pYNptZ@4?o22ps54nLhw-p(~it6uOFk0)(&ORqbi|Rb)M!eslJF
zBE6PKGqc-^YykwW<IT|FPXCQ>q3KTF^rk=5nJlyPIh5rplju@UC5KmYJ1Qxzl3Gio
z*25{L;tJ<5mzlt{IM^E8?k*x;bGs`5i<lnP{&GA6@<(?(Bg!-~^x)hA^BEaFmsr$m
zdCM5*4uiu94s#q%a;S2sahRuHhmMT)GH3a_XO;G>@}Biq-f%pJ^tK-FAXKMgi9_fv
Iy_`7x8wXIgDF6Tf

diff --git a/src/fock_state_circuit/nodes/__pycache__/spectral_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/spectral_nodes.cpython-312.pyc
index 58626e2ca0713d4e3dd49b71e9247fda67aec4a5..1c52a89ac6f78d74a66fb9380d485fce6082c4ae 100644
GIT binary patch
delta 154
zcmaEmx+#t4G%qg~0}z~B5tp`+=dwtBTe4M5XmM&$aZFxLrKP2Xsd<clUaCt`W?8C&
zu0lXYW=>{7aZGTyLO@Y|R%&udag2LriAQOYb54F<YO$_gYI%Tjj9Y$kc5q2zNvd;Z
wQF3W!iJ^f(OmR_iOd3!;z8EACpA3<S$;(ekEsiNJ02)=4m=nL5NA!v;0Ne#RGXMYp

delta 63
zcmdm#_8^t#G%qg~0}xobf6dy+b6G^iM87DtAYZ?@C|N%(KRG+TxFoS8H9k4BD7iGV
RL_aS-CAC<8bExQDSpc_q7Q+Al

diff --git a/src/fock_state_circuit/nodes/__pycache__/superquantum_nodes.cpython-312.pyc b/src/fock_state_circuit/nodes/__pycache__/superquantum_nodes.cpython-312.pyc
index 80c460758067d7821c9ecc525171b3762708d146..59f4eac47109007caadfde76c0febba16bb6cc42 100644
GIT binary patch
delta 154
zcmaD@y}5?xG%qg~0}xcbk4@Xivs19XE7>Y0v^ce>I3_Qr($dnx)I7#NFV&?evn*9X
zS0NxHGbgj4I3_q;A)qKfD>b>KIL1A*#G^FHIVV3awOH3LwLHK%#w|ZNJGdmVB-J^y
xD7iGV#L&PXrno3MCJiVaUks9nPlm|E<mIQN7RMBq7NiyxmL}$H{v`Nb8vy5DI&1&{

delta 63
zcmdm7^RSxdG%qg~0}xobf6dy+vr|yTLcb`rAYZ?@C|N%(KRG+TxFoS8H9k4BD7iGV
RL_aS-CAC<8v$fC<Z2-OQ7UTc`

diff --git a/src/fock_state_circuit/nodes/nodelist/__pycache__/node_list.cpython-312.pyc b/src/fock_state_circuit/nodes/nodelist/__pycache__/node_list.cpython-312.pyc
index ee626eda9e8643a60d115e1c85c7494744bcdee7..69765c02984fa702bda246a724faf1f1fad67e67 100644
GIT binary patch
delta 428
zcmaD7^E`(4G%qg~0}#BdNKCWa$h%6SzAM=(CbT%Us5mAsr_$2W!qhy*KQGm#D6=e8
zL02IlBQqznpg1NtTp^$+KPxr4q&UVsv&5q`$vG!KFSS_LFSR_tImRtNIXk!{u_V<w
zvnaVVv&7KAAf~t|IVKG#9$yTSh);&d#N_3tqyp^%k~x{hB{7?yNKEHoJTSRN@g8H+
z<Y=V@Of_ti<&`BF**04$$FhmD6zKz<Tcivk)Io$QkkDkGyhSsSwU`~qo~)-;#F#&M
zp;j%Y3WI?31rDh%ij&o~y*Nc6ybr>YtF*N_1)x0M$?LRLJ#RR8U+{^!=n#7$A^Sp3
z?!|<>3j($ixMw&{<XgafLC5Bzg6#(`sA;SW!ZH_RA}<R?UEqoO`N@z$+?}zQ6=?Ge
zPG{-KdO8N&!60{;gNWeCnK}xLA(Ojw^u&CD0>3yxo{Y}SD~T-%2Puf0d``!SF=(=&
f?mR|=$s2UL851Vk=t=VXGc!tmVgQjvE<kkvYO{uR

delta 425
zcmaDJ^CX7%G%qg~0}%Yk`JeT2Bkw8+T?_r9)Pj8d;-X~zwEX1k_~MeplGOO*%%bGd
z%o6>){FKyUFqxBCT%y0(OmaF0<D<#v6z?$>PhP9EKqZS4WE?7}VOz}z5vgUbVXk4H
z?5`}z$i6vKIhIY1wMZW*Riq3e)Io$QkhsN~nU|7Up~*4%u4ba-Ey05P;>?oF{Ji+G
z)S{Bi<iwm}4xlQ9$<A6ujE$4GY1MLSFbGIr;E?*FI@w0si&Fx^`yf8KUt60~1j-Yf
zd{|pG`hkl6brsW#DyA3A+%BuQUl35d;plV0H}0Zi{Dq|43wik$lL{^f*iGP`;W&|R
z0rv$R+lvZzAGo0AvoZ+FT#$*pEEIKtC+g=XQwDK&#$r~WV`gwV>r6J(G2jjbdBPk-
zgig-UQD6+4+^eG}<_8q`#R&?t=*+y5*rG^~g6PQ?b(|POCX49KV>Ft)S+|=pX|lbZ
SB!3_?qx2^R5Lx5`R0jZIH-FOr

diff --git a/src/fock_state_circuit/nodes/nodelist/__pycache__/optical_values_component_names.cpython-312.pyc b/src/fock_state_circuit/nodes/nodelist/__pycache__/optical_values_component_names.cpython-312.pyc
index 4be517e1b88436859f8af3fa312697df69f0a99f..59f172f85ce5c54320f510e2f788800a53a3ba34 100644
GIT binary patch
delta 4205
zcmb6c3rt(r_1))Z^Wxtl*nHwJVn`I?l>Z+Spak<-5(oqc2_^EVZ4wh=vS*V72V#<@
z3P@G6^-62CN?W^jD(yZcV%nlgQ%TZJ)w)gZ#c7?POscwc)3hHY(psiU-8t7l%4gAb
zk<UHv+;h)4_uO;OIoyAae`At2zi%?>IT*2h-u^d3*UTmxd4Z<e%8qaH3El*s*e`hX
zmxUg^*KnEZF?fx>1fXhxY67YeaG{^~ngKU?CEzf769G!z%>WaZxCP)&0*=kzxXc9j
zw!nANh}Dri^LyJX>Ey!9Sb2m{edQOC?|YoRT|u85><tW#R904$miHbE_*}C8jL)8H
zZ#&^1^q&s)c68g@<e>qdClu^$@`sv-pR6Ao3iyJ#t-iBu^}UTlo|7G+zL2lpFMEdl
zp~8ZK-k|L1?FYI$hzo8{e5E%q<n@6rfP?;EsFxNyzeCLQ*Us<Jk*WjaZThRKS^Dgr
zQsX7UaaXu2<autA(AkO<`pKR@&|4K2dZRim(NBH^%Qy%($qgjY%o+>5S#5cxsfLg&
z+FZMj+@rL1FVWKvYx9$J!>7GqgPaN*92z+ZCOL~b9`Dh`01f_@PCkCM@vbp3X3SHK
zc`;+DYAl_;pfvR>WykLrPq3A2)tDV$R|*a)?QSLi8+VL-_bjPOT6xq`p%^RVOb|wM
zUGI}zy6D<R{zzR7#|#D_YT)<aXFNUN%Aq?C*o<;=C;>=p(0`swp{HG<se=n4FB_wD
zygHfIHK))&H*Uj&(F;%MZQtgfNftN{KSoA5_ofwIZoo<ln=HlT<SsZ@%P9C`dF|os
z;;!;nH6D#0_8-gVxG~<#52RAkl}*xU`(7)p?n-GM<thJ6A*j%dX~uX^vgBlr3mp0%
z#Fl<VtaX!D1AoHPnk{s^E9Ie*45p-fBPHk*`g&bDx`SS8wq$G0g0*DHoF$weTSIkd
z>HUV{Naq~a`j;<ZI85>uIJcaJU>krr!4G%OE?@o{64Cdvh@b$MEf|RIp?>$nXbsBf
z-Z^1l$RCh10Cfl~YUW5_&NOs7<oEOq#^YMv468wb({h~MZl}eKj>w;oat>TK&fPbd
zCqgl)P?ZX!hN5Y2tgKlrYrbu0hPZh_h@};)X~j`XiDE3d|Mk}QLa~D<)PpCKfxu@R
zcak*npRP=8@b!S>_K_z3UmUlinV+qD$ramCrS7P@UiZO{ngvFj5blWf$X$aJGvug-
zoN3{<p=6%tp5Wa)NPL11qC}kFt0=_JgFwEUpU(P4_O)!~c<4jtuyV|Ey(CuErdG8n
z?cLF;Be$Ky(V{cJd5$#T?&1ct12#{%J}~CZ3tS)XLvell2rk1EVba4Wy^TNiP`Wxi
zqMRL3hDX%n;SZhXH_&uGS~Lo~E|C39(|)EY44Up3^X^NQZ@FUDGSylZmC6;dd~v~q
zepvk2IlLIR2+;F@)^J5(K3E2qa3ej<RV&=ISsOO#Zsw&l2#L1@J>a*pZ4Fl4J0zt+
zN_;0(5BR%+7U=Iv+6L>)@AhvcJ9A)rJd7|-<}|1L0RVmHSnMpP5GR#d>cL3b+0sQa
z=^HIS6kaEC5^ZnIFZmpUzzkrV`$)3Hq)b)HRK!e{BRnh53f6h}vHWnDqi=WGsL~)3
zLVsG9`rK$bU1&WL0d1AQ!{T{PIO!V+%6s8Eh(heL1(zBDge~<$r%ppo4uo3!PWgg)
z$oT~_+5vzSqVcL}()5gU7tO(lj7epx1m3Jr#CY!7&@Rn`4GfEPaB>5PU1ggVp4qAO
z#x(<9*t*6z#!BD_kFc&>mCB=1r6N|Y^P2IIZri<qb#e`uvCeTd^snu<$8?Xjqe7J`
zqLNb)opR<(%c189$)TTg*bPpU$i(K-#Lhj$Fw@f6#P2Oazi3%%VOd1RP-IC&cEp#G
zkdO;t&b*vU&h!lq`+_W)KxKOWa4AWmr28dep+D%(i|j;R;mM()LD`ObZ3rOQb25w5
z0>oI1)FM`o07F7X*T*evMXVjb>l|}tJZ^MIMQ|K`!5;&-%zeuD5v@4isL^Yssrq>i
zrrP%`Y*q$OKfv$#G`+TRiqR^ktw^ezPb1n0nbOR2I8O@?*u0=KXe;Jz^fyPcB#pLm
zL9fv|5me3V>6b@#!JFB2G=t32rlYM9y-(*8eF^<MCU39CXM(Q909}jOYh)dciFG(;
zfSbL@i@nk^uK{=^>~Oq^J_GE<4rnucTNvj<sY%dHX?%u$9qWgzBZ9*^XFABz`Ha2i
zb6fg$(B106C%HWEX|m_pI8!p*MCjz19F1P?q1Vq8R5|!~E71cyLEL0tdXIL%!zppW
zgNNDG=DFSefIsARU&LVhF5PwZ#qFXweiv=PzDg+;D5mtSnSY!uB6PYgnO2X4J6ULn
zayl%>%NbUwHSs0yMj95srJ5z9_@&4K3~CiCRZFJkP(wIF_beLqF3k@=9a+=tOq*xT
zO8&t+#<q3+(d-4K?C>39_gzb-V$57zFmSv3$>PV3p`Z~|+z?XgE#eJlN`0ERDzU5_
zE(4T4&xHWS2Xq)bN8PS1*dyuUJ<@VJz;|%iDDeXZdhw!-rjKqRCR#SS-L$g%tIb0}
z$8z5Qz0z4uHh}_1LOh?R0?yh3xdbu1JGq&@HM*Tt((w7Mkr&Yw-vsJ7cQ0POcdOFw
zsNu1xP%OVr&9A#{s9RUP?^f5vs@v7-_E>edTHPJ3J{sHEbImi|cb&XCJk|cnxoPrp
zIJ&b33-tDT@luwrTJxh)fg%<xKG1O4PmmzKMBR<#l)amD^d~JPoy=~z4lP`p@#}#Y
zPF@>fgT8><{W2aPUU^um|7zutYi2$gOCaSecd#x=MCp4FR3pI4Sq^JVZL7k%mS#k@
zkymL=<i+$%SX_0j82>D0Hz*gFkl7t9l`?h*EJLk5S0im7Pi=e+k6;IZ<J{d<Wecw&
zCgrOVc&<<p3)dBfN7e<bTI<YUIdZKTNDNz6yO)(L{I}x~mKCT{K~ySI#G;KXgV*|h
zdFa2Ctl5iO9((iAcCdz1Dptf|Ig_>=+Cr_DCQA0hq2vPy*e%C9+NA=9)D{41vO_CX
zE^Q?<^lz7%N$yPPQ)W`j9t>8T<uJ*`ZFu|3*$>Oi+U(aCg7oM0o%=bxba@BKoO$hX
z1D}dTX*o%;vz`EgoJ%!V3dt{N>6P+GvU~_h9SAxRbRl5n&yE=8vUnk6IgwRERtR_E
z0zMM?FalN=S-`RDX3ADdqC9{s-3TzM<E8N^V*3zcnhGj_tkg!A#sIYuY8^~i>R_6;
z8MIkb$y1@}uBr2?qYBruW;M8$wO|vpg>?T!uEcAL7DQfKjG$y*q*o@6n3+n{)9TR4
yUG(o0TemUYtL^!>xaZW6cX-fOBM;K-$!!@So@9K=A^a?$_4A~OEO2aMXZR1a3lm}h

delta 5211
zcmb_feNa@_6@T~b+ht{8-{LL{B7ucP<7xt;1Z7o-f`S^L!uk;+uE=}Pg=H7sTRuc^
zF)<yjHqqQpO(ruPO*#$6KZ>Q(rkzO#V<vH$X1eRrEMaV>buyjlA8l7@o3Veyo^y9s
z1kH3h(`7jK^WAgKz2}_YIq#n4zkH21ev+P^%E9lL|9+P|bk&%iL*ApgIpsl}oFXle
zQ>7GH+o6+EPYNvt$sh|b)^`X}8jRDV^pjjmI?Nb5c*zJeq9nps_=O;uU~GcE0Baf0
z&ybeF?xm6$s9CZAwIp^6usaiWWG2o}fw5H&6V{_yj_k=_=DeLt&Q7*&2ojy7J<Yj|
zlhYdo@^pQPBKP`BRHeP7!{6TRRs(GT+1>6@+WS3$5}#j^RYtuYHBdtLJAXh#`Zwnf
z4YQ)V-QUyel>;*U&ZZ{vG5vhgR7$@6lrXK&rLS);CqJgY+x#{C)0Qm56&~+~;}qv<
zdiA)KnCa~;E9g(F&3u=c7Sxz&N#%WFrzKUp$RFr%)iz?F?^l%+rMo?<yS>fl_j%ge
zytBIgUI}DVvfw0#Mp=pn+9`RqMK=Ro^$Xhe?5n{)isq<T5EctA7KhgDnHHO7OqQr=
zUD&iPYN`mED&DIM?d}RWyQfWFwz4K{S`%Lnl{JU<wujbB(<b?rIV+UCA!6PbO53Ou
z!s)X{e{TS#a1XS3`(?FV1Cz<09y&Ol%ON1t1uj66D<k|BLQf3j>bf_8gez%AgGDcq
zZnzFLn~v34XiBxUsQVx&LXPqyTo<#U<j3(=;YWC1D!nsc(T{3Ih@|Nf;mRyaYq(d1
zcD|Eq=UX#4Zd4fIXkTAuP*?_^o#)S*1y~sst|Ub1Ud3_EFhkhvAm<Q<>ufHiU$%KV
zY=LjfHeXv0^i|gP`(#_cDoZwxkByJCsj$-FS8$}tw!~G~;#Xl)@O5|0a*id+vLJL7
zypLH;kH-h3ZAeMMxg|(e<ATuT_xO}N=sL8CN5r)fTr>I=NmgVjamxy5#;IB$HvB1O
z+_(nFaBel&9?0nnG=Si0ane$P%vAo2pM4j|826>Yc<Ok>kaw{tTDT=#xaFo{%ZKKv
zLy@hn(EbBAw;q^2=nftBMGpEy>fl!#JY7A1C*IuUxK<d=n6qcrltkA&cXQ2iZ{$rk
zwS->qM4Gxz8E3>NE-rm1>rz%|pY)kSzOiGxD7u=y(l2I)#g34^<K9h&tm;6BYYyu+
zeJU;A`Uxqg{I*@>ue5$!YmNX*%xcP@v%qMmyCRb|*6Y)fuh+~u2<_RvKKC*|D|o;K
zW_51%D3=MlK^0$_7VU6U#Gs?%HG$@$`CQF~-RF1H`iNK<(ibvAZhv5#u*m@bOoS$$
z-rt#%I`+>%!mjDnt=Y7y!Ae`J^T`tCqvxtc=O{l)9&e@+k0z$<AK}3;HDH<=51Qsi
zFij2EY&zPk<x!jMGUC}a-(a-?e1G;E(IoGJ@@Ji3+nP}U+<|i^H*h2L(#Fi3W^R!H
zl@AMGlL-6?FKf_A{!hX@`;EfT_1n!sVKDA>Ox{Ev{Bq%}Lp%JA4J{g@sV(kq;Cm2?
zeNvku*_c-p+g#wMfwm)FS&h3VdZgFy@AmjQZT-DA6<TlHlT}-rBHKDV-k_JcaVqnl
z1Zh)_cmhhBax{Lf4Vc&<%KH2P+mVFh2mCgS_w(Lg{NRKJmr@G1_m}(d1CO^sUwHxv
zb8~ckr2+|a__96NMPFBPfg~J$miT7Pc)r`;;hqN_bv8X2WEluO*88{66ZMv0-1`3k
zN2+cx=rJy)=h943Lw?whA2K|7tFHcr6m94XH*|(PJ>b?|WIMWbqG^QD9LMb>JNSQb
zoV}KxD!o`1wL8Oh=X<5Uw{HO_g2_-?e!Me-kg_%`uAQj4DQ=AM+<_q9&BLjyygclv
z<z4(Z|C5x<DWTS`&(?N_nxCJrL`!#sOLt5SL`oZOuI-Mj@=o_Cus1-qB4;1jhT=H3
z;Q&rKCrq1)Vmc0>O0<VXdq{7OX}CjtALF7RmwLWso=Y&??GN?%L*4#xYwu@k`yOT4
z7g?oDt3&YNFsVf@0aC|U)-je!oF&sN!SLQ)18RNm_S)`yajBr&$GQryJ_A>MHM_<r
zT+6rAWUtm;TW_r~n?6`#uF2MYP@Yp`*IhSRYw}FjSDK;!p;-&_ALeOm?34Ps<z!_s
zS^zp7!v<v?_SPdoqe)`<cDi$CHO~?H%Few4f-c=OR7RKY^6^R~{obw;UQ6h&cUegx
zeSdfvseG;8PCq(sfk2r`>vr!8Ugni8@X@T$Egw}C@OzGh#RO_J!g$!c2sLo$60jdN
z3s%QC$Q@oicKX<v(Rc<CVGr?W)I=L+QS%~nE^rVJS@=z>&q~Onr=JgG^CJY|J`Lg(
zVzCB8Cp}ydmv`r2daxe82GyC&S_tYrs^WmD%kj)+RzO5%sHh^d2k?g;HEda=2>U!8
zHNoRRliJ-MAG>z!`e?MaC0yGQsXZ7KTf-&Q<AI4o=Y;P|uUAGYtgFMO)e*5ZDz=Bk
z_J}Bl^zuCz&mrEvW!;*pTYwewTF+nn!-^UoR<tXH-Z_>_LCs>OrohxxSTsN-m0BcC
zKo%-j3*Mbmm+?O-GOvde7NtlWdqEGyHThBf1wxAHp+=iw`vb1!^mOB9k~#TNV=cd-
z6s936JruEU9}8HRtRyp(a-78sg~cSuIvbmwA-VMBri&ztu52z2J_&2H!V$mUs}$h2
z93)IrX8IWXSmF}rRE0w;5_~SD4#{pLXr=L6Vi(kcL&y%f%N#Sqcmjkug@U9L{#DF<
zPX@U=d>hf~V>>hktvFsC<Dj`=W=+W3JBPzqPMWr29Oj^zu*_i-%hhT-32w)BDl^{R
zD4S#Bn2~6MWLy*Du$>U*SbJB;Ywa<8s<!BLn1Lpit<h48%a*}wi|*=qZ3jWxNn(0h
z?OFxi>UHIj-_kR#hM-1HhcX6>AR`nhI$1BLbnqA!B#kU4${`aghcciL!ZJr>We)De
zf+@K-Jy950qzpM7zQxjKX`=Lb_*65LQOHvVg%Z?3!coDI`S!Q=E+<8FPj3!!O?rE4
zp&Eje#+^#9^p$B0icD|!t<6_#Ae4iTr>8RXRm^dd8E650N?EQugI4+$tykX6NK`#D
zdSm>VO6VPB8Tnw+pspiJ;Pe5gd>}tR(QBb+1DUilAiJ31=@}}rf+m5Nz-8Y0l&5f*
z4a6bDMR~{sVOAA@KwwCOxMFJS&(pnuVtq<$`d@}x=!uJ#u()DTp)=7i)eu_WJZ*A4
zQXAc<3^`k-O)t!t3qolH_wI_^>JD=6w!^Qc0jq0*wK_|G&1tR9)h~z*C<lv(3sPB}
z9ZBZ0E0g(KGpD4(g0cz8;wW83-yB@NaU4}J!}=I^>%S+lDX@_-|2h47=W=0ebK<7|
z4gu)%fo1eWotbI}Gv-SxmMPNOL1USN3>W^_yvqicZ$n|x4wOA~aL^t^w;i@L#!JF|
ztRgIq=On16+5pQCgbm_@jAX`H8Fe;<oefc^E9`Vdocp5o{a4pdluqpV(f09zx9i6D
zT-p_}?>|*Don~7A%X1p8=m23w(7V>HnJg&Ns-bf0E)-|+1@5M2hH~<*q7X(V1Un1s
z;gG%{Zk)A~*N0Nb1{R#Y5t0+8k5OoW>DN&*oKJp63x?l(6o(Bi_Oht`BZ4vfUApkb
z5PpAwqQ>DDM136mE=GI9LF59?$zmsil*PAzlf&kP%os%e>apAk!(w4XEDGt1lt*$4
zL+iubSX5rj4JQ{HL%cM8|FP^a;fjbWLi!cJZvW_|vi*2r2aupGCw-mqV!-n}%r5fv
z7W&lj<z$N19j_zhljn~cNfk3s1hQn@!fzKm9wN!Gb>X$N1>7E=BoAGuUj&Ot;iP74
zJD-KPvp|dhOep2l{bDKk4L$$jhG3S`ic^P>U=5}mM#5090DI{Bar|S@$3Soq>OF~D
z80xiQkAdJf;h!>qTaF;X#85em(Ls@tWEI}?Ef}3l;$V#?4R8>k3mQZ&XkxkP+QRWn
zNP+f_9}7D+#W)yGY38uGn@0fDbV3}|prPkqdRim^XgZ=@fn;S&M?Zb(KpkU`j2j#}
zru3{XaI_aHF9l;zTyF-@Ot^W8QQ&{;H~09Zey?1q4AGvG`FY2Al6Qwg`qeg_mnXI4
KF2@?C<$nMbku|vh

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/__pycache__/popescu_rohrlich_correlations.cpython-312.pyc b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/__pycache__/popescu_rohrlich_correlations.cpython-312.pyc
index 63c27cf0862eedfa3ce1cd022eb9782ef40095f1..68943ff6bf6b1e8e49854eadfaa00899d448cf12 100644
GIT binary patch
delta 166
zcmX@Kf@#W1CZ5y0yj%=G&^j?QZ6i;(O#QB8tC-N@)S}{;yqro)OAAx;82`Lfm!izF
zR0UmyfQ-zX%!1;W;BbY2qWrAX<dWhT_skNH(j@1c{Jhj+UBA@w0OuID{N(K5lEji!
z=ggwy(##S=1B002qU4w~pm=;SNFqKNA`?@PUyxdyTpC}LpHY;PnLK%dj5K4+<VG2p
J%_n54$^i?gJkbCE

delta 73
zcmbQTlIhS2CZ5y0yj%=GVCDWbYa>s%j9i9(QEEZHesNK<ep-HVc6@P3Vo7Rza%NF-
YX=aK3<cC@^li$nmF@jl}rDUth0fsmkmjD0&

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/__pycache__/popescu_rohrlich_photon_pair_amplitude_functionality.cpython-312.pyc b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/__pycache__/popescu_rohrlich_photon_pair_amplitude_functionality.cpython-312.pyc
index a55a480f34faf2b163a3eeb2962fc23b29e4d6c8..3ccb4af125da34c9b01d059a6e9b25244fa60845 100644
GIT binary patch
delta 162
zcmX@Io^jd+MxN8Wyj%=GuySH%+D0BG`TC2=RxzQ)sYS&xc{!DqmKLVwG5&d}E=8GT
zsS3IZ0U4P&nFYl$!Ql!4Mfq8&$tA@x?wKVXrAf{?`FW|ux_+tU0nRaQ`N`SAC5a`e
z&Y4BYrI{s$1_m+3MaeN~K=JrukVJekL?)&nzaX_Zxir2gKcgroGkLPLyfkCX=5YC3
F3jh_KI&uI2

delta 65
zcmbQXf$_+CMxN8Wyj%=GVCDWbYa<Vnyj;D0QEEZHesNK<ep-HVc6@P3Vo7Rza%NF-
TX=aK3<T`mRM*Ynz<#R0nwhtBS

diff --git a/src/fock_state_circuit/quantum_operator_functionality/__pycache__/quantum_operators.cpython-312.pyc b/src/fock_state_circuit/quantum_operator_functionality/__pycache__/quantum_operators.cpython-312.pyc
index 0c34587395529e32e6117fd67e26b3eb8ba43639..74991032f7991c0f03d982edde0298a7214d17a0 100644
GIT binary patch
delta 162
zcmey>!+55bk>@loFBbz4oH5Nw+sHFVq<&GdRZM7cYEf}aUQVT@rG=?^jDKFLOHpQ7
zs)DXUKt^UxW<haGaJWK1QGQlxa!GNFduEA8X_9kJeqL&^u3u_-fOCvnesXqjNn%N=
zb7oO;X=aI`fk8}hQF2TgP&~dEBoUtsk%=iRP0TAP&5h45NG(b%$)9{xgr6~H^HY(j
Fh5$`lJNy6u

delta 65
zcmX@p%lNB@k>@loFBbz4Sh;`A+Q>6UL@q$TD77G8zqlw_KP^8wJHEIiu_QG<IkPCa
TG_yp1vV^D{qyA=d(W!<2%7+!2

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/collection_of_state_columns.cpython-312.pyc b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/collection_of_state_columns.cpython-312.pyc
index d1bf344b2127c322e8e5c250709ba3d43fc64b77..addbf1d4dc55efda6e8acee8bae5c4ee9ab396a1 100644
GIT binary patch
delta 1233
zcmZuwOKcle6!r5bi5!0#?9_3cX`MPYu^UsTg(gngK;$M^1xiYUD(HyGFdjFPPG;OU
z<3>S2-5{|be5A`FiwFWN5TX(wOI3@6U;{!RAw^JCj09rK0*R^%L}9_bW2<Q;-r~%C
z_jBI6=f2rm-ChlU9}WjSxbFNV)t~$<yxAM<#+}dOVYjRBN$*c=0$vGShwGt1pNGE=
zZ-f)wz9eSU{BR{an<Ud+>)tDYk6GJ(Ibf$C7<n%6^SWo*3x9^<upa4U0xTxuuoVe*
zZTy3Q0~83|t?9;^A0p@2RI3pEg2nq9OQvla5?3u#Z`zt^I0D@A2{6!C=nCOE`8`nW
z`wfZ@e0TY(GATZ5soW9`eXU%ccw}6B+E7n&?UI@<rstP5U29n4!rAmZH<wk#w#3IZ
zyV`uQqML?l6;G?H^A&N<R4y#ovaMD$t~51!tW**$u84K?OBMwrr5zD%b){i)S(jv^
zCRq)LP9>QLav=t1Vkg)(ycxUJpV?M#=4N(sGdFW{JGr?ZbJd+_6)whKWj9)X#}BcP
zfIV0wSej>`wD%Ir!iRe|QKZKb0wd2fY$YaGwsj+s3b0<dH8{>fkQX*E<*JZjqu>aW
zEYs@W|A#j;axYnA=ou`NhmNvgI)o<(NHTtcAdFxI5Yn`GrgiP$FDyHYj=Z1$Pl4s{
z<YMaQ!{0JtH|ID};aedpp206KwBF6Fvy#i^+huctT1_=<t*+se?kgC?s+VR#iYB2p
z(m)a9p?K@}kpt|(IpT{UIDW-!tT_QiS7pvq=*hRKodH8#g~dXDyxr8j#Q0j?DhSXl
zyw9>93>@;t_fwshFA!@_hXY276R5RXd>aogmcD_n9{Td&DGWMctD$SQq~P0IF)aQB
z`gZRP?;U;(6)u)4jGcmuWBX$F$LR<W-WdZ-I&$Q^Kk*cu*W)(B=P7!Ipa7p9ODEjH
zxV^fa1zpjc6#V*d3cTaz4v%806VWxxmdv_zo}0~v#fPZg9VGp{sD5YRQ`#8+_i`4U
zd9TyORlCUze$?IaIu%8CZO5k>HcCQ%$0r+W9lI@0$L~Ll{|Me)q9i|EgD;}VmkH#%
zmdm|_+kD*Vf$s7#HVo6{)T1+$Q6X?!tddnApt-k)ah9y-2}A-F;Uf>H7O<Pm^4B<;
f7bb7-<K$?2(Yn)fe8sFab#<Dr!G)=!pCbPO;mj|R

delta 1262
zcmZuwUuYY39M3PgWU=XG>vC(%(o2&rtxZFA?QOPObpxk!h-;zMp;9z<mur?ZyE}e&
zM`<h+LGZyb245dU_b>!uvIke9;KcodDWWec9d<iVd=PvRrc)n8(eL-#S|+=P&wan&
z`+Wa@@7&zkIq@4&YzyF1vj3^Swj{n2Ym1^53Iy1_1^6g-i%r5C?U#0^h;#o_5gfK*
zsRk~r%NK%ZgZIR2F2GMO1nZp}l+AZVplFp4G{wU#4cEjZli{}b68jbIid`@s-@>}#
z;=>Zu<89G1?9`5hKs^U{+a)+1k0JHl_!K+V`Xhdsq4G;ePIw*G3DYr+GS_Xh;W{<b
zfFHLFL}Hkx&;e4%4`DA<)gAb)<LgXC;ksoiHrJFHQ=2W@&a|VKwHnvlnxnwdXg^cn
ziR}rfCl0Vr;C$lK0p()vsyeo;j;*Q_%j(3<N&QxJ_GZIashTUQwW_+ys=K1jEpMFz
zS9+6u+xlB7vd#=<w`nR_o=4;~=H^~_J&}SJI-iU5p{fNTSCrsJ=VF1_UUbGaG%DW<
zSGnn0Htr#i%|0kV8qOv6vA))wWID{+;rFf)7K4&}ie=z4c^50e_wp#qw^Es(gY5;3
zvQY_a&rPD6p4-Fnl#?e3Xj1$jfrwy-5il(!ZhhYK9qWA>4F!Qez`+*Qxk$Z||B7Wd
zIR_}zeH|3h0*i@s>w4cSEb0dh@eDlDFUR~5$@sl_*dNh}ehbUI)4zvxA3-ZmAb5gi
zTJv65Yv|LQccG;~?!|#(gxozDE(<cu54_L%U~EUK^=R=YCUp}n$e+g-r_=Ub221-`
z9%`kxkvTN@CEVD3wdYw1A=*}>=9D!&qmzcskD_g}1^7UD3yT^We3C_cwglIPq}2ad
zl;~xIW(k&*op61~L7!o@DkR6zT8R3s@Cl+#5)|R%;cU|1fZwU#SDQa;FAefTX^4zW
zDJ7(O@kY&d%H~XY?K*f5`THBA<MKD=1JA>mk-rw{#0o(#!ga^x2H)$eyh=`6H)StW
zGaQ@{*}c%TF~2UaO>5mQjGKmzwZBRvfy&_1DDqi?<Nry1>>8>C$%{g4|L{~VDqhs$
zrloUd-v0@_h^;%0&iNtody2qs{27vp1at>$8+(zYDFPZPpF#LAz^O6p@$CLDaDT@~
d@9nh7ux3T+&*<YP&5GO55Ar6MkCg=a@-KSdEp7k+

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/column_of_states.cpython-312.pyc b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/column_of_states.cpython-312.pyc
index bb07477800a87f6cbe53d413e45f675373808340..4e970e48532019c9e96cb08a5cb926faafd28326 100644
GIT binary patch
delta 162
zcmaF!mucTWCZ5y0yj%=G@IF&6Z6nVvzxvh5RxzQ)sYS&xc{!DqmKLVwG5&d}E=8GT
zsS3IZ0U4P&nFYl$!Ql!4Mfq8&$tA@x?wKVXrAf{?`FW|ux_+tU0nRaQ`N`SAC5a`e
z&Y4BYrI{s$1_m+3MaeN~K=JrukVJekL?)&rHMbzYC^08KF)t;)xM1>UKS{=z&Ak5i
F^8o`SJx>4t

delta 65
zcmdn@kLk@{CZ5y0yj%=GVCDWbYa`DtKe<T#qSS(X{o<lz{j~h#?D*o6#FEtb<jkVv
U(##V5$!7i<jQX47{qN@k01-(T4*&oF

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/interference_group.cpython-312.pyc b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/interference_group.cpython-312.pyc
index cab28ba1c615cc959d148e6c60044c5067009045..3e15ed7d15a9512bdd51a51a2dbb8d537c0d2f78 100644
GIT binary patch
delta 568
zcmeyfk9p31X1>$Byj%=G@P#`eZ7a)0zI~qcYm=>FLW@(2ievI}DlIK7OwD8b^HN=k
zGRsmGbQJ<JGIKHuierMq6#|O#vr>~wieua}OFT-GoOAN?Qj2x{Qp*FJW8CtSvx7?#
zOH!RPi;_z-OAHMRVv38BW72@)@x>sC_+*GoOi5~PL4HwUPJCisN_=s_<e#3Bj4_*q
zy^ho|mTkUq!h(@8bhF^8`;3f%lRuu8W^|m)d&Y>RMkq^ba$=<L<ft>6Vm16JY;%}a
zGlD$Az`)4R<IKX)6Fhn28Fj{p$v4l~Gc)#lnJj(QoUw6p@Yx;AjAD~{F3#S(=Hhuq
z#_5x5E^lX)-E4A&i?N=CH<oDv>m3!{3wrjKRUAGsFbl>qP4t=II>YpahTDPCiyFQc
zL{x8h_)c)WE@E_1#OQ*t%S92_8zPd|MRYHU=w25wxhP_C!u7gO)<vJJ4-5=7jL}RV
z85qoBn7%SFh{iH~WCxk}ff;1c2Ob7q>FYd-7kLyHXkO#d`C!c_%c=XpjzK`~0*CC+
zPu`QSUkz4sH{m*HEaGm-bjVi3LzLyPmV}2P*HL*%4>PvomSP@4tS3apJoGjPTw?`!
zE9_?8=94!~7#S~b{&y>w+1{0rRqg{DgQe{Ub|}-6(U<WvgcHHU;K1m@_<=nHp$f_b
asrtemGI_$iyZng)jB=kCKxB~$FmwU^!NLas

delta 526
zcmbQUpZU)|X1>$Byj%=Gz*Y1=E0%R5-#$;dX#Jwpf_(krqGbKF{N(KT;*!LY)cEAg
zqU6%d68*_GUK))0lM{=DH&=LVtYe(CS?i<)BV+RB<Wu(<W#btbYK2PFK_-Ggjo@lV
z2+M^bR&sLu86)N%X_m<o&Nwn<=}vxlN=mGTKZR`$6HFB&Lr)?LLk-L1ejCwAXZaY@
zCi9=QXJ+bQnjCo6oUwm%=h+?1jN+4>F3x5uO5S|y;w47L#go@w-p(kuIrRz`V?8Tx
z0@DQ6J1V*t^z1LIIDBGY67*x7=rh4}hUpCrw*#dYHGD6KsNV4Ko#1+1#OR`k(FJ3d
zOCqixSV8JOa4-mpT^G>2D4=;=z~G{Q!3oyu9%&an(yn`CU-Zbn?2-F{fuWu;j_D%<
zgHb%wR|W>b1f~z%AUi+sG4M)X=aEvp$fLMG^BRxN2U|H#-470o3<7c&IAni*@}2zW
zYOtmU6W2jw5f65zL$)Fw$}ESqBs}c7j>=1Vvap?C7xPeHJ)tb-VZ)xxGO1N$bI-MR
zOhCU@-^>H~_1R5xM#d|f<!%Qv+q*Hc%6(vCu(bWa4rO{W`Z9ioaH5zP92i{~Kd^@)
eR6&^_RbSXcCvUiSmp@s6QSK81h%8b8#t;AqXs9Is

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/temporal_functions.cpython-312.pyc b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/__pycache__/temporal_functions.cpython-312.pyc
index dd081e316dcb349fe84ebc3410f9babd69a0eb12..af7bd1a305968947709ac78c1f65105341e6582e 100644
GIT binary patch
delta 162
zcmaFW%DAVEk>@loFBbz4Ov{u@+sI?eTfa8hDkiizwWv5IFQ?Md(!$g{#y>CBr6{v3
zRY6xFAR{v;v!FO8I9ws1C_gJTxuiJ8J+s84G|4$9KQFad*Dtj^z&XY(KRG+NB(Wsb
zIkPCaG_%Cez#yi$C^;q#C>~!7l88@+$i$SS<`(1^CFaB@=B30J7fjCMm1K<B+`*e<
F3IM}mIrsno

delta 69
zcmdnf#`vn0k>@loFBbz4Sh;`A+Q?(dD;KR_lv<FlUtE-|pO&AT9ba6MSdto_oLQ7y
YnpvVhc_Xg|qyFTN0>Yc$^7@+s0262zw*UYD

diff --git a/src/fock_state_circuit/visualization/__pycache__/draw.cpython-312.pyc b/src/fock_state_circuit/visualization/__pycache__/draw.cpython-312.pyc
index 4b7e8b75c1286234c4436cb09312b18134b16f9f..87227ef292852e3c79d2e132f551fa92543a888f 100644
GIT binary patch
delta 10233
zcmcIKZE#%0k?-xUwEEhWv>(z+tNpURcJ(d!Lzet)$u_q9g>6{|OUSlnB}=kb=I#1R
z%;VvNBaqqy;R#?k2!^}l2=WokngFQ;R1^okBNe0qVn@dv<SJEHcUR#A<i`P5SJypn
z-+suFA*s5j(!80Tp6;HW?w+1``-7+TKYmJYde>yi5#agXKlTmgT{fN0*L_qIyD$Gg
z#j>-4(5n*!IZrlG6DcSGq;svLkk{EW7OzQ=mS`O#`RsSESrv=cCWVMTEKZ6@TM$Gc
z*|R25KUW+nRr>{Dq)e+N-`bdQBZy%R72F(KHtVRF9kNvCrVwT4Ez3m@yJ~TX*ymn9
zA@<b*wStIG<8yPWluulnN5scEt(Be>1{#&*n-;M9tv<b(Sl9_iakH7&Q5PD8aj46M
zN$%8q1BX9a%awUhk~8WT1j+qvWF<MsZ%Cwt;~9d0^jAYW8oL=!K;X|%Tu%0=%{pHO
zS~v>kAXRA+Ywsk#NTEhY>r2cUYz(Er*=rI_h*87MWMY21t1YgF`Llts4F<HMBAhEJ
zM(xNJny2bXw$ePdyV&1OjN`zVciK{gOJ5Qg)C$AxsTk}NyWL)t3Ly^8s)SA1Jzz^U
zMb5pB1^S(-iyfz25-Cq8rkFZt$&g-Cj9f}BdBPb{DiZ}##_hMP^b`WJz-P>)j5Bp{
z0iD#zeqGeYe*dzSeOhd)jQ8@svXG8s$z{|jJxI%>D9Mps*#ga@F1EdRhv;HY6gTI(
zQ2U%-0sHu62hylbp&^N(OzHxanLrt?=n&L1$1wo7)f)SuyR3Ay6HEYEIT3Xf93kGa
zuwF-p$rGv8W=hK0hF5Jh)T2$6WKIG#d}Qy0F4Re#6QWc>%O-TvT9DVr?kO&@=P6vu
zQlV4m`)k1Dp$Db45DOTmMt}z%K8bruO#1RjE_?Wjl|5aW&wl01t*#i*4G9CfK3IFX
zf>zKar%+07NF)^x>!NuEL9Uc5;$wd4ENz~TUw#9A72waC*$P@ot5Bm0%&(gIXf=;o
zzUYq(0;%MI)GvDzg0AieBneU<G19=e9{dC1rD`-9Rk?=xY0bC|rsAjm)G;)`+|FXB
zpLzj99gT6)8*MWP6Jp4f;Kh|vs7(@A7nNdW4?2r8(iCC60f*SxgwvkC!1Vn$nZED;
zbHY0ooG>kwny6P*om30v6o6K`QZaxQ(m>q6<Na*C%ibLr&jPjcSRvPfI&1mTd65Dx
z3iV=}x3Xc0P|0=F8qT7Ya3-~fb+ky*f#d0kTdwDBSWoN2e_#df((Q4g4d9CnARL%)
z*i7}L3cZjvV5xYMYc6F1mg;{E;EPx<24)RW4~_?dfpT?BU3?5q3B5KkDq6+y+y-ew
zq?Y@{sCPxMQEt+hj?@Fsd5_}Nj159g6Nrhyv^mtEjY$ZKT1W_wn@R+>QuP707v0sX
zfD^=qX2A0BDK=p#w?Mm^w;QokHw<|x1c80DULw>PK9ZES6{Sr`q4E1hxh>4>^#yLu
zPYitu;YO5xljLS!CNC#OHRx#JF5c^O=j*9^oIT~PajlSB=?b}#uAs{>+)7I$x$%h$
zbUDm?i3Q?S5lnSuQee!8*s#wMT%LmL)>M5XzD6+lPF<L&1NOV+>f)Rc!x^wtabe`<
zAwh0qpZI)AdqVNcx#Cyx$eqb!3ff90@zZwPhvn5^s5$cL6v<pEl6e4Q4Q*RU>2wuc
z&3ExNDkTya2UVzXklnMyl-sDuPutk*ON#R$2uGUJU@m1XNW3l{Bm%NOTS&$=#S5_v
z+zf1gp;!pfkS~CZu3J#L0QKXRugwLtR0DBSqp4<5Vjj3mA`Y;@^70g+*Rg*oce0<B
zSL7yzMwqX0J@@Tqr7dp1Efi{y%*Jh7Nwe*E@ZC_cG8g@b_l?xEsS3N;!p^-|ng^2U
z2{%_2%)YL2vbhSQ(#+EVJ@i}i1bG8(hFm~vZKP_i4twPe-lx_(l?_rhxZWoC-wgj-
z;QyA8SJ?<qH$dG0bpzB5P`lC*$3-aOA~Z+ol(LBXP&zWTNx9S_Wdk82plyZ!ZJe|N
zda|L%sB8>p@SZGrTgU`ZBgDlFz}X7_+d>Adrfiaq(xoG<+%5jS(h=w)IiLbP8tRZv
z-VS|jnwccuw2N+MHB}z#4!~W;qlb~3_D;H#HC5ZpWO-zbhE5yV-Bp#hZI)i5W#K&9
zLQwTJh|Y6QOb2#^%nQMl)o3;H4NOw}Lm0t@D_hYA1}^Uc!agKScX4TUFD$*XL)kf`
zqr2&DwzGN_Eb)?N9J%CA8u?LmW91g<U1}g3IImliLPe6!hT;{z>|#6oRr+0^o9RZo
zT~9V9IT2C0wNy}cu#0}DxQqS5UoSSYxhgk%{7Npf22w|DT5y!z7?&HyE?KMGB6TjR
z<vlmm@*Y(@MHpGDtz7c0>;VOBMgazOFy$>+Be#&&OP!Mtx9|}KWt;Q?ZG>2e$>@84
zAKzTm-IkBwXCQem^rafjzNG4?pi>u=t*^`I>sIzIWPQp$AfT>uH`j@QY>mIS#ot}=
z_iB8T?PLcrUfMYc0Sq5eh&CAn_Gwk^Km%CK&A6z#{U$E!7w4kvWli-SWgp1_#p#KG
z%e4>98d}`TK)UV3O^hV-(ymF!c<@OEN@c6`;i3z=f6)a68uI?6S`9SrC#cqpZgdOw
zWQ}XpH%;st)R)cG$Eo>iU2DFH+D+7iVWZx|o~bQUZmJGQ><qLhteY@J{~OL>7F1`a
z@Q{`vW3;G97)J&6#*Y>~0FR&f7r<ASnd2+*0SDl0k?>=shaN~hRLHlbY@YM`Zl|S?
z&8%2B_RtpEG6b8vavPLwAkuDbJDC^?!48a<lv^huGr$Lqo;mVCS|Zhf$8m!udk`(r
z+KVj+(!J?qv=;RAksOi(?>hjtkDH#E@Kpj>f5@#-8WNK<6llOODDR*S*fq2PA`HmX
z$Utv@WRof;B+Gru9ZJ8_J84iMkVNf-TPkSDhvb9uVfo0Sx;V&_mKMt2Tra2?V6&e~
zdx-SV!=RJ{laS=%13T=(8&b=Vh(g1R(nG-!7=NSt?}n^x5jtj-5a}Veffx=v&DN0H
zNx62&1r7)KlJ$~a9#;A$!Rj>GFu=nd6Cb9KJ5q+VkXkUz<hBPRcua_syJVV#GfkXK
zk#t}&@rK0Y?S|5$#R+Z}J@f2IQ4K1^p1uuHI*({#Ei_Z@(Trf;y4WQiSJX*hsc2QO
z_*AJ6q)B~Xp45My&<oL2RM$dzxy|1o?{PRHjxMefICy}6B^_N!Fi8yz+GK8YXNCLo
zw^ILnR&)VY$%RQ{wb=BWVWkm*P2A*2KhA}3JM&?%N`pFit#TXS)^p2l&~TO8=fPCm
z^^jN&gp6>bg@@|_o`4T11JZpddRaRuu2k1wCaEe^dQ#&kIixY*EMb5gRMU__Gdavd
z0HHyia&V_h^OA)f7%r{&xV405q%`@~;QT$5p{xf?_PeF!HA5NT)JOQ#d!RPJ#~TR2
z_oZMm9Md9pXjw78LY{IKv593F$~==-XAB{_1$GQ|J2aC)PR~q+_*;V>O=}IOwMNof
zqsbPSa7q?KmnsXTN3iN~=J6nQEJ*--;dojrv{-9?Y>S?Om<iV^6NS+)5{U)7a3v3J
zT`w+o-9!@yR87FWkC}|6u{)90x^uDC{OoNZmmNf<Q;n4xyrndP;j~s{vDOXq9)o*3
zOOzS}#Ud?*+t4B%sl#2NfSlBPUmm1`BU|_pD!(<;dMX*p&x&xS9*PvRDX)XAZ_Ukb
zkdMy4o>A~><tXIMaD@>Tqt&!ACBzSDJn)uEve71Gh^8EAG1rDM8)y@47}Q}O|EjQ6
z8Cvih&apI#kOub|gh=uEmDx&y4eZ_5<6oE><zev7coL85(r$<Vs@@|Fs}SsyM*zwN
zqr<A_ap)*O`Efc8dW?>w9|E&5D9Fdb^(R((s*k57%f}Z>mf3Gswyx=xL$q5N<#%{u
zG;bl(fSu^L5(39==WA{tYF2B!bee5zTe?c6aO_)ASR1FnGucaL*sE>T;t>0!tvRC+
zCVG|?wfo@swz7TGTAf^R8ZNs<`2SOCf$_tyKpwyv^=D)2SN%Sd?cVr-_#IZ+@r3xD
z*i=VQWObWfFq`@ZhNXd%!;${b;p0K}+fB9N7|Ymv)-hW+a8i<jA?O$*!T#aU;MlBw
zG<Y`l?B*?c@tN3vY<*NO-p9`Ec)&0Q8fS$&LyGsSdk5NkyTd^#+#5P}wykaD^48v6
zp<t&pd@AUz_wGJAd~EncxOZ=lcegY)5*&zxd$$ZnZaI0R<Jedz7_Q$LJiWW4ck|f5
z=-$ZTNU%c{t+}bGH!KbG4g$PCj2)WLy{Cr5Cl4PR9zPrz9t*j9iFEjM!-=!fb0E=p
zb|<zF)CbLQM(iJUwu(w5C)+)fS9brl3x-eftrJ}{`QGXLy6aZgMcc*E8DGmaU+avo
z^?hI4jJ55$&2hmwW2?MotDCXaO*gEcT6Q&ereoi9cmGVsq3Qa=AJ~puca&W?IO7OB
zS2OKcK9?yJ*fg3SRrs$}bk0<CPDQSE&1^X^Q*mIXAQs(ycSgp({qNWI#47f?^No&c
zwyGIhRjfNWm6LVWhT?q|Vy+Xu*sc?g>hzy?+t{2GsIP%3d?4g+=q||mpax#{tZQD&
zhVIhL>n3=4GQVyCU`6Kt<iIPy_Jw~eKEl2Z2OK|uaRE`9L=E7lTCZe*m-M~Z>d50_
zg$?QfJ@1ung<k0r;$ima^~N#pXJ4K?<Fo_fK>XVb^a=td(TMlOKeFhlBk%$CzfLun
zsgY*%C$M6!(>_srKeq17p#Bhi*%FD3TA;MkEGUbp70P02htdJtp-4*LyQ)Y^;k$)M
z3Ml-ehd|v7b#uJ#gztVLd`2sT(lvy=ZeDs=F5Mz}*<N}LjIvhVTt8bnFn0XJ*vSyl
zjD=fx|FPk4MCu00(ta#@u(*pw<)!-{!s-MTKf>Z~uy_)SA7b$|78jwIH5@-2IXas$
zcx-G;lA;KH3JZqCgIGKcMZl$M^%C>k{c-MR2p+-WbC#`C+3&*Y7gz+bfE`DWzGR)s
zsZ72)53ng^o%rJUdk*DJ7x=FG+a`=37F4o<dw!Z(E96_}nqrP~-`6RHl{we*{L{4?
z=JZhgB+qp*e=Y-RV1=f#3&-b-SkDqn&I`SB*;vmJOy$#+ZF9NU$P-Kz(^aeHOxQ3B
zrmAWGy19I86sW@sv2MY7-<%ceHo;Uq9q5?uykjQNKW9IJup+@!IbFSBdgJXg)d%N_
z5#)#yF2P1=oTU>RWx(Y*-JA>SZo$;}qGis5b+2G*ez9fF2leSJ-&}=I5SY&LfBAVo
zd+6SVCDryWqv7wpmaaU*+xgC}Lc`nb_O2qsJ5Ba3r{QXwy~`W>_}=eYtZ3u2hDh*C
zB#btQ1{^#27}JUNSoRYeGfNuL@SD)$MQ-eYOdcmB#>mAz;v{?J;$hJeD|seYgb|g`
zZZ(QcZ0sjt^E*InJhRTb>qMkMy2|E$QnjlYN$~}L7?<vTEFQq(JQf$QK=YY342(fE
zDn@LyjDSfsiscC4{<Z>Zmss%mfVh%9^!$=FtpJ!U2?ryQ;m}aHe{f9dj~pEi^RNdY
zPWlqagy9PxI%x7yoqB2P)8~o4Ix)|I_%RT$1pz;2aEFaT?J<Gs*hGF=?2#8X>+nXW
z6f=$z13yBGyfpTk`8X&d9_G4SD|WH1m;JCuUAXLL4_?kS$a&E5-sKK(e(OtT#Vq!h
zFO~bUhXnj1IZx`-ejJiRa?yoJ9-Dc|BbwM}FFBni{*wnW`XSYN%^Y$k{0O5uwkjiE
zwu6{c&z7<8#&(#p`FI`_M#|Yg$JPNA*A=JT#6ORhPzPM+lt5A`Mo+{?4PPk~3)x*)
z-tV`>Ih}&fB_>Ws<*g@Hxh#|qP}@AH6YjOGvJ?B^>y;kv&BW*<aDh?^d>pipq)YR6
zFW256pNAQKW{X4ZNS#aVDf~lXH2-M>hq_t#XI4d}$#J#Bim0=5NAk7BNQ~y1n1|<C
z0FQH-hX-FiL0fKV8TCjl8byT^ozb1qp{N>2jluYPfdT!14)ei8&yBcT@KjuqFMHtM
z4NCMzDiafMQxEkfe;^_KmK4iA5XM*spUE8~)o{yg6$AKf(-_w?oC=EAd#~8_X}#Hr
zRbW$28}#RAd*Om>9*qQ6k%pC^I`e|f0lSVb%}_O#(7BP65@#~SCN|i3vI+nB0&(LH
zC$y6$Kt1Dd)s}i5#X4~^&ui7q<=WJfZ(5kJdGC`tZFS(9&PQ|LbJ4jMt?bw1S-Aq(
zvmsgxxIVVq=U@$gWnyo>=E&fej0{Ay!GI;H@&o!#X8ie5u{^fw=gSN(3|`VzEE2V^
z#73zfA<NjquZJ@K0;~73j5n$~@5AaS6aj~{1_M#Xa3pv<tnO+&s=-B^x<}61`;P@f
zLy@EXV}lT-w8Tt$h=txL?&G^+V#nnB>1+nyf7J;2w@8NXt&d^t2`FYW!(&n;NM`i|
zM<q43E&~w)<!Z=G1T|?T`?ohj;$^mfs!RMb_UzPNG4~fp<d;~ye*Vo7bq`&}PQ2+8
zS?v6qr$y^^f88~I`;5Q+)x9(R^;7F+{Ck-1tz{Xv_rCA%i{1U!KV^FNHx;~9l)Zm>
z!Q1Y<{q0$A*BYRFN670DvfeQndIWa%-3>jMFG-kE%^Hr3jU7`XJ0_db_pnIr13Y=C
zN9=YimSXWZqVW0R#H3m*Ft37bs_<9;sx$FASdkFOmYnC`^N8PP-uGMqTnLHl9s5#;
ZLC05FtB;S7lgEN<r90W+do>0m@_!v+auxsp

delta 9996
zcmcgS3v^u7aqsP}c2_H{Rx9mlceQ`5ek<Af+mdW!S+;B=%U?j2<)19;tz><?GH+M1
zCGO+VhEhn>#N+~T2n0iNQiBXJY)Rl8%BN7sfuu-v5>q8<NKSfAN=|bWC_N43q@B5M
z-+tr|ZQ9dk@4Wk&J9lR8%-nhR>RXR$A9ze_e#dM!aqv7K{^!_R&zetLG;Otsdn~`<
zy$^8QVGYMg`I4EKg+dn~Nd=_fPr3vvDWGSqer*%H&(GTEo+pg^ySOh|zEn7*9p#2J
zM+%ZdEm9$|2-fjdj*Ibg`NTpBsb;QF#|>$vLdhZ&kpjVrgh%;VLz28L?m>R=8S~M`
zcyVn3>$64+GkX+_Oek5271;97v7)@ZOd59;t?>s{OraP!vdwFiI?v5D>A2*$<)U0i
zQ9Pt#X3mCuSc;I-d0y#{hiFrAMb<ok!xz!%;-J<l6w#wjN267+XO5YLp;B>r24W>E
zY5uY}6k5?Ln8vF)PV}whr=5)zOgO^`Pl{)AIFN)CZGie*;)b)tZ6SHZETniG7F(=T
zc~akL`f;lwxiU+ZTwp;sJIbeWaF(Cb-H3<%DzTB2N|~8xU|>L<e5F{>R|m^w7D{k>
z!GVgAY$RV%kz^<N^bdt$mthtdVtpl<Obd4U?{+_1oIr`6x6)<1dyOj#!^!BDW(o(i
z!F;9COgy@&#9ix-SEw=&7bzv~5v^(*l84yxxih@z;W@#>%**G5s*wl%2p%?xmyz`n
zFMX+`ov)(%zEMnn=E$!|_Oo7JR3jKAAMuJ`BtCIYFiHMgj^q<RUFX=v`{})4Vt&**
zqsUxzEJdj*gObQc^~5h2X3Zdqe{KZI`dM`D0MIIQhOJ)g9WMn7z!|;7Mt3;3Sc37e
zDxwe?t3@ve2UQ^j{X9^>M=Cq3iS`liSzc@<zOx!}A8;C?=N&G0zRdV5<+`{d-vP{2
zC`t1918c5EDf+Eo2}y$LTPjy0PZGV`mCskuLQgrJb>&r54rxX(+`wu}m86oCPb2$*
zC@+-XubIo&aZ;63Nl&@!n^$61T!mRJRbDNuwu)5K-?|;HFbR<`3qzr~7j&FZ!6IXg
zR0h248?Q}|Bq6~-YG)z5%tD}0Y)4g?w2IV_RkJqWwuaPXj)4)mE3s!Ghyq?2j8W)e
zfGnd0?$%mW8eB}28^R45K$c9FwDi`i@aZMD!+JxB^FrA&%Kwit&b5P&d&CA(rsz+s
z6-=^J3)O7ZVpOz}+N4!qyPu!43VKkW5!B1Vg0vb`x|%Iz8B)ZhB4t=-HCP7LS4ZqI
zBeBKw#1YdFr)brH6KVyYRL@+pp48J*-q6+taK{GV66`isK(s<7t^;X6D3_%zK-2@4
z;(QI@h*);O+BM9fJ2%kXzS5@g!`C2Dmn4Cbq6epl%vCDG=tiG`UrhsnZbPHggbdL4
zUvO@d%T$|#fYSv0VVrD^)?LLRik;#bH;(vf0PKMYOs!Sxfh+`sX29|@*_seaEl{sw
z^+trsCLyhXFmM~G7X{*t9gj1%tjJc11Dp#PEXZQeMt|%NhHp%mkNy@S3orgyA!}bN
zwF(9$wy2Se^^|EzV3u|SYP@YyJ86>|NgG*<u~cl1=P81L$gT8)KsaZe$_{M^76)51
z`U9%^AZnF>xGBt4nT*dl!A@Hh?VjOdIiTz0WK#18C#|O!g28<oQkrXJn!AaGUOn@6
zTvokMO*Y`>DQyJHGD#aV*zjkt;RlQkvVN={gK*wWWFy;bJIDswR_4uXOo_Ih9xHR_
zHD}cwyP!I(kv0KWok_p0m1=UibPSTqk}=4Twpw*|h+7c3m=bMrr@}#FEvdm>R>c9?
zSFvcNMl#i8Q|?LYLLvIKP_9Pqq=!Qt87yMmjT{4uo0)qx%j=US)k2_j6B;QqH#y7P
zAhbJZUisRb2I#K`!*bEDmHX+P<+=2qUa)Dov9*+cxR~A*H^`9aZGzQmX1lT$xV7hV
z(iYMTo3dK#O7?27SK7+@l=3!ti<k>uupNFk!>=2DJE8%(3tD~9>VsAvwECdcE^kfZ
zVk_ceYs4gP6OB;JLMA0*9<hnJK*#`nJ@DJfNIRh?7kUhGS1gD17^R(2Gqf5YCglK5
z5BzpUb!ti8E}kH3=yHvXUaD|ecL^rYh!zcQL?i7cYrfoIZ{0<93*d<to9A_kb%2~&
zp(VqA_oV6uW~+P2nz5TOF)^=+cPL}Pc^c`q%8H(w#pj4GmQPv)j4CyV&r(3#i}yqe
zuGKDYM2nHGnuWexQ|qXQo_#<mh?K}aHvcWixXmQ*k@t>h$Svd+T2i&1Pc16_$4Wyn
zjw!q0m~U3qySl}9h)(EaRBugtSiF(GTH~V&)n@9bF3;J=<OTm~)C!x^GzDJ1wUm?h
z2(>FEP4i24gv*?ngj4E5D}1?nOPaV{D{Q@*IIRo2`F%hp)UiX{a$VKlc0<+PrV1cy
zg>7sOt*{;6_>*q~c5lYgum+UTjU{1+(0Z|J9>NbkJSXoIe@Gf3q;)}PdKd7ML0;KA
z*$DQ%A@xF^VmgYc>`%*1xUm-c{hFY*Pws`~Ym@h<)YOL*VD6seduQ^!EBW4lZ(+Bv
zM=)I6OE1;9(~E6_P+SK#q7c2A5mnaxvxsiWBsvcpJU$Q)8g!i8OE<OosB^Wqe>Y6)
z6AXg>;=XyKf|HJIa*z0<>n_QG>n;h9kq&@$*K7NjCAY~3{!dlGh~CVI{;yR5(F0T=
z%LfD#n1@!-u_ZZx9t$-VN<c$5&=Dj`I^v9J&KArSs~IUA3aGg!dVXa}dX^_8bM$^_
zPktzOja)rIkt}n-K}gk88=l-x4&qj*E|zpCp5FXc_8lf3$RXCE-t2M<X&HeXS3U%=
z9XPm!*@+&b7|3b3c<Vgu()hqPoJl%D+~O)QU1qAnZHSes^<oVI?a^#1Y7Ke@1e0Kb
z_c3VO&opb51!lO=I2iS*q(=BO5h%kjfX7HF#C>ZLp9g%sN(Ood<69Lr!NUjSWAdPU
zR1NUpGP~g<2Ex5`Tsk5RNdm-&^+{}++mOGeg&bjdMDnfb1IQm>Tpkzt$q?w`;5=lC
z_`sfl%4=>J;gPqid|3eWr2l5P+FsatahN?hOz0O5!5r*sTluo9JuHOOuRb7pgssI<
z;V26Q1M^@#>g=#1L4?lD8f`w7F}j6rY;ZXkg^T9&K@TMH2N)9_z(o3EUhY>dhb?LU
zXPE*c(UV1jtRRuno@!J5>T<2nq(khz7DorOI6C;>;;1{DqwAAEUYOxs#mh<1&^Y6#
z7ng}SLfV()6v<5AQ#t)?7h;6vYY-;aAe`1{7UAph?v2$G{32mlh%kr?$>P?^HcnR3
zVEGUruVyAzry|RTSG0k>VLl4kS0rkH(--{si?Hl8B1gn~GPJNs)q*sfsV})dGcF0o
zfqpTYluZfbr4e<z4q1gE=5NDfgl*1OTQ9l~{YA6?DA|-elFN}dD<zVCv&|Ul>RUM+
z%mI%Qn7I8=im;h<!Z5xsj-;a;tp8a^sqO59Eb1yT9+?Iv+16zrX@Nki?6g+l1fyUT
zM%i0!9m}eXXVoUMYA4e*u)@9RK*5Y;u!SV2N`{GO8Xb&xGOKp#dbO2-W9|&ZAo!L)
zTQpaY6w*$akS9|@_O{3e6(QlI!7ALIMO)0O#jaOVa+eh%4Yd%JuoC&=S;MEYYSY)N
zT_w__jstPN0(p#0+yuvMB}QQt4pu^H_;kuHPk`-hKchLL!CvJcVn{or!4H0NVr)A*
zdwgZBzW7W!T+Z<Du{auc(7iq<U0$1KX^_TN9uD;3$Nd;&i^}<a6=}?ftE1}dcsL^3
zNRvEDGQQq0!-PA5PSQjghBes7&aJ!UQRM>@E*Bc;*IV6kiVo~%?<MaQ8l`cND4Clw
znUt(_4YVr96yu6(V4pMrt@T(U<BDUj)|1f64r;PmqhuocgT{zXEKRcX$X_*?l^so9
zFFT_5w6$9Mq*J6%KFQ98@bUvZ*yfZc<x}8;>liyaK}mQG7iZ`vZOzFM(X0_A$q^fq
zBUm<jah9HFui{7P+4jb~MiAr<>>caIoss^$-N-l6U$<}F!7f=&!wD%5KdJJMDTT@4
zcj1JL)@x@HzgqVzJ^g3mE?g=Y8Wo48M&kp~sguVeB7Lj#NBrIN(ajI@cPHAmM0ovD
z&S*Sxl0MS)ZF+EP4SzfRv#m4b;s7wYq#cjUEaglOPE19XtV2_x7>NR%Ng*;Y8XcZY
zlx*9s<-eIY+WnB0zn6Zz^FA0X?-F+g0-rS1i;+{4^)Yd%et2?dd>|Gdj7J8Ntkh4B
z#-;`*MrQ}(qm$8kK^#0?cWOp_3Z|UR?ZO&19f4|WXW}n*xAJn#l<Ql}_uRYVobG+6
z=iH%1XZYUk_bko@OZkP;OEcfS^VvHuw{BkyZ-1|?^A*dBmdkD3S3CnxwqIzzF!jA#
z7j8RxdDqc%x1P6uwg0kbU}0!#nd4^o%^G-Z(d^Rv4r{xyHpK72ns<-pZ0@q2D|EpG
zKP|7$yHeh@Sl;#O%wqZ8MCabSa!Pyq7Y;@idxx*|jxF|%EsResOrN>jJ9D{qHt}Y!
z&r-a4p>D^bt!H6pWMO!Eap&np+nK~~gjY?*(>9dlcM~)*8MIU^RIa_8-}*x1V*Unr
zC;oo&oF?z1eGblhjQ{<Ivl@C*46knkJ-ktA?(A(dzR{9{uOE6WoxK~4Khj$|_iK$;
zHWYR4H|pOD!^^Dy)C`S9`cEt1<)E*N-{Q~Fu~^vo6`&I4#ivoJcr6wX?eG%sOU%c<
z%9lH!9M-a4aUb-G&mbNc6Bh_1F+WdFOr7DK^cPbu{%`1iOdW^v(doLx!_z^Y|9;}7
z)5F>Zfv3D+BW{3pQUtJs7y&v+F+eA=19XuRfTeJ`$O~?|^A4}e12;ju;DwtPUhs`@
z0R0RG=%3!Poe$Et@3;ci^#s}G7VkjT2!dV&crPXPA&{tDYCd*97QYN&$*h{%Ky>hA
zMEpzacnrbg2%bRj4FF5JlY{XSOF6?6lar$OMQlEg;6Vgu5j+AQ>{S%=4E?(F^Spn>
z<}m~x(|hl%v`bk0Hv|y`!w5d5uirVXXA1rT?T|b8zoN2yOuJYZq#wxN)`vMu@p4__
zvAaI6k&7x!@8wr7)OIdwq4<8j=iKefIZy)YGyBe4mJL`oa%RuDlgqhSHgRV6xx>qO
zSkC9np@oX}WiwU^ICJ?z<@#j{Rth<D<wAAGvK1>u%J5<=+pv6O*^cEB&Ma3ggtsho
z9bF6$EIY8x$(bt_syY`oA6%?DwCuvB(j;LwRy@fmy;$+VEEhD(ek=z#bN!{F<sg>J
zICJBrrsWWn7mUH>O0F=xV66WAhl4!l+NAmYhlO0Q7hXE9in{OimIdrRTHW8eih7K?
zH;wKdv+m7idry(>t+2hvq5EEwy~mR{c=zXuiqUwNbn(cUcnmL}&@vOt4^a*8Ox*p|
z&3ac8T68m-GS93ytY<Mre31V9v0M13Y18>Z-kx~id>#)Y&OhF5;G5|O7h(l(1F>2C
zs=%I8@jCGxI{swko)#p<%z)y8ejdRW5Wr14Cw>h98r70+Xc8h<DPp6&gw2Ynv|$5t
zq;@PlL*IWg%&(`Wr^@(sboEny@27wqGXntsN<WHEu1$<SC1?XFX@<}b)dvs8vHsB;
ziGO)|RFfBXt38Ac6x->ga$~8WV;_n<gN6Z%iV+XedoI=TN9l8ys_9FYye32H8jt?u
zQnkyNs={9q#DnTEl0%O@8=@W0mVh_ze|Cn?r3=r7WYY+T|Af3pw4=P5K)^SrNyx_?
zPB62paJVCmz8g=mKrAYzP{8^v8GVH-`uMqDr>I#N_U-9wYAQb0oKpz*$Qru%xQD*^
z+%5x4ECjeKE^*Rz&zosSBET2WV+pstfL+nL;LJluT##7ubDv9&TQ15mgFe|EVTn`<
ze+=+);&Oj6n~k5FCSIX{NuzM96>O3xYJpbv#{x+iu+<F*ya2JExMN!4frRNn;u1??
zPA4R&D|xd#pTC0NV6tAq_@8~=nyfom{i)~uvO<I1r)Ovi5<1D3p~ci($oC37|26O&
z*T4&q0BFi5wh+JAq;f9{4mB@To0Pu@!JFz-j;c<7H7;X36IUpd{P6RE(gN|Sl)3qc
zp9Inu^x{7VPALe?G_E2+!8Mk;=2i#5O<1j3PA9d<BE9t8aJwJQg8ql&*os@}AHEZ6
z5B!m%9XJ}k&P>$zqN})+1haf3+1}|EJn2MTu){70w-o5Mf*-H^)vr%z4a~v`7xt(t
z%CJ22_zP9^<C0<@{27Moc)>?BDiR!rl@SwU>HNc`MbjKuzHY7t5ZOW9SR>@1Hah=s
z9?f~t$%h!HaM7B{Dc}#%9WOTX<%v6AY|)irs1)BpkScw`*RyO<Y{BMZ^xeOX>i-;z
z_s}gbS8cu*i{k*oE^!kE!-ueeZLTbg;suAYY1;=TBGHlfiGj)CfppR+-cO%-*&(yd
zIkj;sJGvLhE#)X%Jd4XuA}zMhKa8bE0W9fblVUs~ENO>Mh)P6ng<;{45~x!_R$Py~
z9m5g9$y4#sp}~oPp%a7AXk;P=+|Z6!_VEdN|0_NGr-`4vax0(r3eNB<g4gK!*T$6H
zzLn0u7UW+_{NT0Iyz{5kwHLastlGG^YUAbVj#opA)my)3S*-4(eXqBK51m*TjV~UW
zx^ie{@z4yUo_FwDF$3MExmoiO#3Q~NU*R2^#M#$>q7U@t7rs%F+h;9&b6tL4iSaFi
z4xuN%&trTmtn2g8FTCB^hgqD6iQba#_~hh-vMoJ@EZ&D8y@|1Wr~$EWLa-JAW;!BM
z8|p`_L*PVUPlVq2rAB6DJY@~%iauyxvO?~3YGN`zF?t-bcPuUGmA5ztXiG(z{e$tL
u6OovRJC|YwY}t`q=1f5L6XS-Hlfu+QWTS|AD*WeSUI6s&zw_ykhyMaTQ?1be

diff --git a/src/fock_state_circuit/visualization/__pycache__/plot.cpython-312.pyc b/src/fock_state_circuit/visualization/__pycache__/plot.cpython-312.pyc
index c0ad9098212b2dd3ed63209dc36be87499f6de33..bbb2066372776a6235bf588d53795118c75c1f95 100644
GIT binary patch
delta 805
zcmX9)OH30%7@q0w7U)t6;n9Kys}QhgdB~dtgOs#{U}>z1i3<d`i!3cI+1-L@c||cm
zOwbG@kZ|(ifrIE?fOvqQ2?-Zo3X*v9pb18#MkU6_4E<;3`@Z?V`6u(w;v)RB0OQv5
zdL6*=cT#Lyy!j&TlX>6)U%_3I1xe=ozTWckvf@&%!7tQEVz*$nnqBRpPwbL8cca-Q
z1v&&?kvWH`)CO<ad;z~8Tb)9W%f{IQyw|O?DuPXv_@Jm1<mYp;#B*&p-y##Eg^xH~
zw<rf&ed66#MGW}4E;Zxy7Ngk*XsjX)ebvRF6WLbPlf3|85T#qPsBL2%x@__5V)3gf
zyuxMZjYZISXjE04oB(UUIK^vj176c~0f0UVJ<d*vRanv^2}O^ZbE@NcO&>K2BdI<*
z1Q2AC(mag!EC5n;i1ujlh#IC+@d<3x>S4}rDrOJZouB{VKtFOb8M-4N`cZ0L0dnOP
zGqk_8Q$Uk>PB?)+<`oX?8WP5PMtjzK``;M{)&s$HQ^}60a>G>lihrH4)V6YN)wAPl
z-@voFee0t5*3_|S90&ste@Qb!@3Mv+*1Ex3=aM(slHEk(G(B}@ihfctQnPDF9AS?R
zqkySOBWv;VmO*K?F<J^?$!j7FVblW<h3WWzwgGyXkH6FnER;H5fMBMDk*wI2WC99-
zA_8|XV9QQ)2;D36Y1gonedtS}myJ&u(Mx{3-%CeBwsdu-=oe)iBu9^H3$e1qMrw!9
zY}pEYuLjCP`j}yCI4!Bt82WA>g+r*{;V|9Dxjj}AIs@H8i&yBCrCf4R2z_u!@F8;5
zUWZ5Ov)W~f9VGcN0uxBCZ_Y|$l9q}N0H#%2n9#v_mPwg&9{^1ASHpx3PO3la>vZfR
xQf454)cVF|$jo5fpgzA*N^6OfrqMoUf=?0CbSlNcK*KjcFnmSlfRH`z^*>!X^#}j}

delta 803
zcmYjOTSyd97@jjbv+eG<j-k7{EnWgq*IGy2b-g@!YZXz$OQa}n>+T49w=?6Va*?D`
zv8Xr(CInGE6g{L2QA!VqLXtt6h9W)mSWm4<K~&f|>O=pT`M!@i|Ns5}&-|SO^Yb8n
zMX%RUI40qq|9a<a{FjWAg#r|NBZ34yLQljKa7nUT7F`}6^z`{;q2DL<xr4roZrK+J
z3yOSvgQYb9HIyAg-*j3O%C@4GvLy6gr%|S}=K#2bS}j@HH|-1Uiya%uO(<#!>qtix
zes>+{hebraxdt@ZkQgUx$s{CX4n4}P)I^!6YKZd3p`G|dGZV<6D5x1?yevNIt11&t
zj56LMejd#hC25|5{ZdNFJn>tlbvAz8!?8`F93c}m3;F78#vk#8(TGr#zz2Pj?27cb
z!hNA`5lZNl&<GwPF5fmBqp2vUq<>PBxr$zegRAD!O>_C0xqK;csb$%?*s<DlX0s`<
zhM!Y`^@`v}b11f-JH{XIXO7?GtZSTg#_)l2Y^7PBcxULx-nBH_*y%0)=*@xgfm_4t
zeD<m)``33Z=_0Xs@aM&qMrNB~!tRiWTy`T(1N1h3T}AnIWcyUr;r6tb!G}HEo*trG
zD2rNoP=G+bvk{)hP8Kz^VuBI@nSh<Z0D(aa78W{*j-qy3Q2h=|X%wy40;zEc{||03
z->shNo~pjxIp*Br4N8eUok_k-3is`7#3}B;X#|B!7QrW_uyjbTy@oFuEhadDUO30W
z2&$;5Nx6c*ZF5izMfycoK)fKqJYp0@_iG?GO5`~Vk_i>GnUJH_2L34i+65K2-)@53
z-$9Q0t}Fwa^V%MxFfCW@5{l*NS>sGgjKcJ?b(c^qLz%Cy({VRQ8BbtR;m>vf_8!*F
l3T!K8)I`E*^sF-l|Mlh0bYmS0_#KMiZkw(K01k$6%0G3z@<IRr

-- 
2.43.0


From 330261c6c82d362427b14f42c4b4da5dcd66f940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 19/34] fix: numerical noise does not make states invalid when
 a very small threshold is configured

---
 src/fock_state_circuit/state.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index a4ac54f..f19e8b5 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -397,7 +397,9 @@ class State():
             float(cumulative_probability)
         except:
             return (False,'Invalid state: invalid type for cumulative probability')
-        if cumulative_probability < -self._threshold_probability_for_setting_to_zero or cumulative_probability -1 > self._threshold_probability_for_setting_to_zero:
+        # the calculations have limited numerical precision, also if the threshold is set to a (very) low value
+        tolerance = max(self._threshold_probability_for_setting_to_zero, 1e-4)
+        if cumulative_probability < -tolerance or cumulative_probability -1 > tolerance:
             return (False,'Invalid state: invalid value for cumulative probability')
         if type(optical_components) != type(dict([])):
             return (False,'Invalid state"optical components is not a dictionary')
@@ -407,7 +409,7 @@ class State():
             try:
                 amplitude = np.cdouble(o_values['amplitude'])
                 probability = float(o_values['probability'])
-                if probability < -1*self._threshold_probability_for_setting_to_zero or probability > 1+self._threshold_probability_for_setting_to_zero:
+                if probability < -1*tolerance or probability > 1+tolerance:
                     return (False,'Invalid state: invalid probability of optical component')
             except:
                 return (False,'Invalid state: issue with optical components')
-- 
2.43.0


From 6e7be5ddadd91319d46b25f026493a12ea9c50f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 20/34] fix: tidying a collection accepts probabilities adding
 up to one within numerical precision

---
 src/fock_state_circuit/state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index f19e8b5..6c6fc30 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -191,6 +191,8 @@ class State():
        
     @cumulative_probability.setter
     def cumulative_probability(self, probability: float):
+        if 1 < probability <= 1 + 1e-4: # limited numerical precision
+            probability = 1.0
         if not 0 <= probability <= 1:
             print(probability)
             raise Exception('Invalid value for probability')
-- 
2.43.0


From 898d45db4c8128c321149c49923d62b0f8baa4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 21/34] fix: Hamiltonians in one operator gate each act on
 their own channels

---
 .../quantum_operator_functionality/quantum_operators.py   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
index cc3c9b5..4f80b31 100644
--- a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
+++ b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
@@ -99,11 +99,12 @@ class QuantumOperator:
             We create the class as frozen, so as immutable. We want to run calculations at initialization to ensure we do the calculation only once. Because this is a 
             'frozen' dataclass we need to use settattr to be able to modify the arguments (so it looks more complex than it actually is)
         """
-        object.__setattr__(self, 'operator_channels', self.hamiltonians[0].operator_channels)
+        # the basis has to cover all channels used, each hamiltonian acts on its own 'operator_channels'
+        object.__setattr__(self, 'operator_channels', max([hamiltonian.operator_channels for hamiltonian in self.hamiltonians], key=lambda channels: len(set(channels))))
         lim_basis_to_values, lim_basis_to_index = self._generate_limited_basis(self.operator_channels, self.length_of_fock_state)
         object.__setattr__(self, '_lim_basis_to_values', lim_basis_to_values)
         object.__setattr__(self, '_lim_basis_to_index', lim_basis_to_index)
-        matrices = [self._generate_limited_matrix(hamiltonian.operators, self.operator_channels, self.length_of_fock_state) for hamiltonian in self.hamiltonians]
+        matrices = [self._generate_limited_matrix(hamiltonian.operators, hamiltonian.operator_channels, self.length_of_fock_state) for hamiltonian in self.hamiltonians]
         object.__setattr__(self, '_matrices', matrices)
         object.__setattr__(self, '_transition_matrices_list', self._exponentiaze())
         object.__setattr__(self, '_transition_matrix', self._combine_operators())
@@ -152,8 +153,7 @@ class QuantumOperator:
         Returns:
             ndarray: Matrix representing the effect of the operator.
         """
-        number_of_channels = len(set(operator_channels))
-        matrix_size = length_of_fock_state**number_of_channels
+        matrix_size = len(self._lim_basis_to_values)
         matrix = np.zeros((matrix_size,matrix_size), np.csingle)
         for index, values in self._lim_basis_to_values.items():
             for operator in operators:
-- 
2.43.0


From 0f3323677696fa7c29fa615aa67e617ae3bfa5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 22/34] fix: states after a partial time resolved measurement
 keep the interference between their components

---
 .../interference_group.py                              |  8 +++++---
 src/fock_state_circuit/visualization/plot.py           | 10 ++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index 81710fd..8d8dc2a 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -958,9 +958,11 @@ class InterferenceGroup():
             # set the new cumulative probability for the group
             new_group.group_cumulative_probability *= probability_for_partial_outcome 
 
-            # renormalize column_amplitudes and boson factors
-            new_group.rescale_column_amplitudes()
-            new_group.rescale_boson_factors()
+            # renormalize column_amplitudes, such that the detection probabilities in the new group again add up to 1. The
+            # overlap of the photons in the columns is taken into account in 'probability_for_partial_outcome'.
+            if probability_for_partial_outcome > 0:
+                for column in new_group.by_column():
+                    column.column_amplitude = column.column_amplitude / np.sqrt(probability_for_partial_outcome)
            
             # write classical channels per outcome
             values_to_measure = [column_list[0]._column_as_tuple_of_values[channel] for channel in optical_channels_to_measure]
diff --git a/src/fock_state_circuit/visualization/plot.py b/src/fock_state_circuit/visualization/plot.py
index 15a72cc..7cad0a5 100644
--- a/src/fock_state_circuit/visualization/plot.py
+++ b/src/fock_state_circuit/visualization/plot.py
@@ -168,11 +168,13 @@ class Plot():
 
         # step 1: Same as above for full outcomes
         coll_of_cols = CollectionOfStateColumns(collection_of_states=self.copy())
-        coll_of_cols.split()
         
-        # step 2: Per group consolidate in new state without photon resolution
-        for column in coll_of_cols.by_column():
-            state = column.generate_single_state_from_column()
+        # step 2: Per group consolidate in new state without photon resolution. All states in a group have the same classical values,
+        # the columns in a group can interfere, so the probability has to be taken for the group as a whole.
+        for group in coll_of_cols.by_group():
+            state = next(group.by_state()).copy()
+            state.auxiliary_information.pop('photon_resolution', None)
+            state.cumulative_probability = group.group_cumulative_probability
             resulting_collection.add_state(state=state)
         # step 3
         return resulting_collection
-- 
2.43.0


From e8728c2533c5d125d9d889b1b459fb073bc97a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 23/34] fix: compound circuits made without a list of circuits
 do not share one list

---
 src/fock_state_circuit/compound_circuit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/compound_circuit.py b/src/fock_state_circuit/compound_circuit.py
index 843ce50..4d410dc 100644
--- a/src/fock_state_circuit/compound_circuit.py
+++ b/src/fock_state_circuit/compound_circuit.py
@@ -47,7 +47,7 @@ class CompoundFockStateCircuit:
     _VERSION = '1.0.0'
 
     def __init__(self, 
-                 list_of_circuits: list = [],
+                 list_of_circuits: list = None,
                  compound_circuit_name: str = None
                 ):
         ''' Constructor for an instance of the class CompoundFockStateCircuit. The instance will be created the list_of_circuits passed as argument. 
@@ -58,7 +58,8 @@ class CompoundFockStateCircuit:
             compound_circuit_name (str, optional): Defaults to '' 
         '''
 
-        self.list_of_circuits = list_of_circuits
+        # every compound circuit has its own list when no list is given
+        self.list_of_circuits = [] if list_of_circuits is None else list_of_circuits
         if compound_circuit_name is None:
             self.compound_circuit_name = FockStateCircuit._CIRCUIT_DRAW_DEFAULT_SETTINGS.get('compound_circuit_title','Optical circuit')
         else:
-- 
2.43.0


From c6ee3a9cdc7587c0286bb83e20f834dcc545602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 24/34] fix: states handed over a bridge take the naming
 direction and number of classical channels of the next circuit

---
 src/fock_state_circuit/circuit.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 7be1fd6..baec9b8 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -566,12 +566,26 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                 collection_of_states_reshaped.reduce(optical_channels_to_keep=optical_to_keep)
             if new_classical > self._no_of_classical_channels:
                 collection_of_states_reshaped.extend(extra_classical_channels=(new_classical - self._no_of_classical_channels))
-            elif new_classical < self._no_of_classical_channels:
+            elif 0 < new_classical < self._no_of_classical_channels:
                 classical_to_keep = [channel for channel in range(new_classical)]
                 collection_of_states_reshaped.reduce(classical_channels_to_keep=classical_to_keep)
 
             collection_of_states_reshaped.adjust_length_of_fock_state(new_length)
-            collection_of_states_output = next_fock_state_circuit.evaluate_circuit(collection_of_states_input = collection_of_states_reshaped)
+
+            # hand the states over in the form of the next circuit. That circuit can write the names of the optical components in the 
+            # other direction and can be without classical channels
+            collection_of_states_handed_over = CollectionOfStates(next_fock_state_circuit, input_collection_as_a_dict=dict([]))
+            collection_of_states_handed_over.print_only_last_measurement = collection_of_states_reshaped.print_only_last_measurement
+            for identifier, state in collection_of_states_reshaped.items():
+                optical_components = dict([])
+                for name, amp_prob in state.optical_components.items():
+                    values = collection_of_states_reshaped._dict_of_valid_component_names[name]
+                    optical_components.update({next_fock_state_circuit._dict_of_optical_values[tuple(values)]: amp_prob})
+                state_as_a_dict = state.state | { 'optical_components' : optical_components,
+                                                  'classical_channel_values' : state.classical_channel_values[:new_classical]}
+                collection_of_states_handed_over.add_state(State(collection_of_states_handed_over, state_as_a_dict), identifier)
+
+            collection_of_states_output = next_fock_state_circuit.evaluate_circuit(collection_of_states_input = collection_of_states_handed_over)
             #return self.evaluate_circuit(collection_of_states_input = collection_of_states_output, nodes_to_be_evaluated = remaining_nodes)
             return collection_of_states_output
         raise Exception('Error in evaluate_circuit. Check if node_types are correct')
-- 
2.43.0


From 0018e38b6b89bdbad43d5a66539dbe6c52ffdee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 25/34] fix: interrupts and failing allocations are not
 mistaken for missing information

---
 src/fock_state_circuit/circuit.py                    |  2 +-
 .../popescu_rohrlich_correlations.py                 |  4 ++--
 src/fock_state_circuit/state.py                      |  6 +++---
 .../column_of_states.py                              |  2 +-
 .../interference_group.py                            | 12 ++++++------
 .../temporal_functions.py                            |  2 +-
 6 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index baec9b8..931eecf 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -827,7 +827,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                 tensor_list = tensor_list,
                 photon_number_selection = photon_number_selection
                 )
-        except:
+        except Exception:
             raise Exception('Cannot create fock state matrix. Most likely matrix is too big')
         
         if len(nodes_to_be_evaluated) == 1: #case for one node only
diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
index 6ed9a57..92c68b3 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
@@ -135,7 +135,7 @@ def _group_configurations_per_outcome(collection_of_states: CollectionOfStates)
             try:
                 superentanglement_info = state.auxiliary_information['popescu_rohrlich_correlation']
                 configuration = superentanglement_info ['configuration']
-            except:
+            except Exception:
                 raise Exception("Could not find 'superentanglement_info' in state.auxiliary information. Has the collection been prepared with create_collection_with_NS_boxes") 
 
 
@@ -287,7 +287,7 @@ def _measure_collection_with_pr_correlation(collection: CollectionOfStates) -> l
     try:
         superentanglement_info = reference_state.auxiliary_information['popescu_rohrlich_correlation']
         quantumness_indicators = superentanglement_info['quantumness_indicator'].copy()
-    except:
+    except Exception:
         raise Exception("Could not find 'superentanglement_info' in state.auxiliary information. Has the collection been prepared with create_collection_with_NS_boxes") 
 
     # configurations_and_amplitudes_grouped_per_outcome is a dictionary with as key the possible
diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 6c6fc30..86b4161 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -391,13 +391,13 @@ class State():
                 optical_components = state_to_check.state['optical_components']
                 classical_channel_values = state_to_check.state['classical_channel_values']
                 measurement_results = state_to_check.state['measurement_results']
-            except:
+            except Exception:
                 return (False,'Invalid state: cannot read values')
         if type(initial_state) != type('name'):
             return (False,'Invalid state: invalid initial_state label')
         try:
             float(cumulative_probability)
-        except:
+        except Exception:
             return (False,'Invalid state: invalid type for cumulative probability')
         # the calculations have limited numerical precision, also if the threshold is set to a (very) low value
         tolerance = max(self._threshold_probability_for_setting_to_zero, 1e-4)
@@ -413,7 +413,7 @@ class State():
                 probability = float(o_values['probability'])
                 if probability < -1*tolerance or probability > 1+tolerance:
                     return (False,'Invalid state: invalid probability of optical component')
-            except:
+            except Exception:
                 return (False,'Invalid state: issue with optical components')
         if not type(classical_channel_values) == type([0,0]) and type(measurement_results) == type([0,0]):
             return (False,'Invalid state: issue with classical channel values')
diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
index 76deb49..58a58c5 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
@@ -770,7 +770,7 @@ class ColumnOfStates():
 
             try:
                 self._column_as_component = state._dict_of_optical_values[tuple(component_values)]
-            except:
+            except KeyError:
                 self._column_as_component = None
 
             self._column_as_tuple_of_values = tuple(component_values)
diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index 8d8dc2a..1c6e220 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -270,7 +270,7 @@ class InterferenceGroup():
         if len(list_of_state_columns) == 0 and state is not None:
             try:
                 group_id_from_state = state.auxiliary_information['photon_resolution']['interference_group_identifier']
-            except:
+            except KeyError:
                 group_id_from_state = 0
             self.add_state(state)
             self.interference_group_identifier =  group_id_from_state
@@ -280,7 +280,7 @@ class InterferenceGroup():
         elif len(list_of_state_columns) > 0 and state is None:
             try:
                 group_id_from_column = list_of_state_columns[0].interference_group_identifier
-            except:
+            except AttributeError:
                 group_id_from_column = 0
             self.group_cumulative_probability = list_of_state_columns[0].group_cumulative_probability
             for column in list_of_state_columns:
@@ -765,8 +765,8 @@ class InterferenceGroup():
                     break
                 values = reference_state._dict_of_valid_component_names[optical_component]
                 channels = [index for index in range(len(values))]
-            except: 
-                Exception('If we use optical_component as a string we need at least one state in the InterferenceGroup')
+            except Exception: 
+                raise Exception('If we use optical_component as a string we need at least one state in the InterferenceGroup')
         elif target_values_and_channels is not None:
             values = target_values_and_channels['values']
             channels = target_values_and_channels['channels']
@@ -938,7 +938,7 @@ class InterferenceGroup():
             partial_outcome = "".join([str(values[channel]) for channel in optical_channels_to_measure])
             try:
                 columns_with_this_partial_outcome[partial_outcome].append(column)
-            except:
+            except KeyError:
                 columns_with_this_partial_outcome.update({partial_outcome:[column]})
     
         for partial_outcome, column_list in columns_with_this_partial_outcome.items():
@@ -948,7 +948,7 @@ class InterferenceGroup():
                 full_outcome = column._column_as_component
                 try:
                     columns_with_this_full_outcome[full_outcome].append(column)
-                except:
+                except KeyError:
                     columns_with_this_full_outcome.update({full_outcome:[column]})
             probability_for_partial_outcome = sum([self._probability_column_list(list_full_outcome) for list_full_outcome in columns_with_this_full_outcome.values()])
   
diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/temporal_functions.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/temporal_functions.py
index c6ddfee..e1af4fb 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/temporal_functions.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/temporal_functions.py
@@ -268,7 +268,7 @@ def photon_probability_function(photon_info_dict1: dict, photon_info_dict2: dict
         distance = photon_info_dict1['time_delay'] - photon_info_dict2['time_delay']
         width = np.sqrt(photon_info_dict1['pulse_width']**2 + photon_info_dict2['pulse_width']**2)
         probability = np.exp(-1*np.log(2)*(distance/width)**2) 
-    except:
+    except (KeyError, TypeError):
         probability = 1
 
     return probability
-- 
2.43.0


From eb4db41ca7d84f752a07f37dd8429a288e4856bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 26/34] fix: a beamsplitter whose construction fails half way
 leaves nothing in the circuit

---
 src/fock_state_circuit/nodes/optical_nodes.py | 44 ++++++++++++-------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/fock_state_circuit/nodes/optical_nodes.py b/src/fock_state_circuit/nodes/optical_nodes.py
index 3e8bf34..5dc0515 100644
--- a/src/fock_state_circuit/nodes/optical_nodes.py
+++ b/src/fock_state_circuit/nodes/optical_nodes.py
@@ -295,20 +295,26 @@ class OpticalNodes(NodeList):
         # check both pairs of channels first, so no half beamsplitter is left in the circuit if one of them is refused
         for index in [0,1]:
             self._translate_channels_numbers_to_tensor_list([input_channels_a[index], input_channels_b[index]])
-        self.mix_generic_refl_transm(
-            first_channel = input_channels_a[0], 
-            second_channel = input_channels_b[0], 
-            reflection = reflection, 
-            transmission = transmission,
-            node_info = node_info_0
-            )
-        self.mix_generic_refl_transm(
-            first_channel = input_channels_a[1], 
-            second_channel = input_channels_b[1], 
-            reflection = reflection, 
-            transmission = transmission,
-            node_info = node_info_1
-            )
+        number_of_nodes = len(self.node_list)
+        try:
+            self.mix_generic_refl_transm(
+                first_channel = input_channels_a[0], 
+                second_channel = input_channels_b[0], 
+                reflection = reflection, 
+                transmission = transmission,
+                node_info = node_info_0
+                )
+            self.mix_generic_refl_transm(
+                first_channel = input_channels_a[1], 
+                second_channel = input_channels_b[1], 
+                reflection = reflection, 
+                transmission = transmission,
+                node_info = node_info_1
+                )
+        except BaseException:
+            # leave no half beamsplitter in the circuit
+            del self.node_list[number_of_nodes:]
+            raise
         return
     
 
@@ -751,8 +757,14 @@ class OpticalNodes(NodeList):
         # check both pairs of channels first, so no half beamsplitter is left in the circuit if one of them is refused
         for index in [0,1]:
             self._translate_channels_numbers_to_tensor_list([input_channels_a[index], input_channels_b[index]])
-        self.mix_50_50(first_channel = input_channels_a[0], second_channel = input_channels_b[0], node_info = node_info_0)
-        self.mix_50_50(first_channel = input_channels_a[1], second_channel = input_channels_b[1], node_info = node_info_1)
+        number_of_nodes = len(self.node_list)
+        try:
+            self.mix_50_50(first_channel = input_channels_a[0], second_channel = input_channels_b[0], node_info = node_info_0)
+            self.mix_50_50(first_channel = input_channels_a[1], second_channel = input_channels_b[1], node_info = node_info_1)
+        except BaseException:
+            # leave no half beamsplitter in the circuit
+            del self.node_list[number_of_nodes:]
+            raise
         return
     
     
\ No newline at end of file
-- 
2.43.0


From ef894651054c319c1a7445a9394216c4db9224ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 27/34] fix: photon pairs created from different input states
 never share their identifier

---
 .../popescu_rohrlich_correlations.py                   | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
index 92c68b3..78a004d 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
@@ -194,14 +194,17 @@ def execute_popescu_rohrlich_gate(collection: CollectionOfStates, pr_correlation
     return_collection = collection.copy()
     
     return_collection.clear()
+    # the states created from one input state are recognized by their identifier, so every input state needs its own
+    identifiers_in_use = set([])
     for input_state in collection:
-        intermediate_collection = create_collection_with_NS_boxes(input_state, pr_correlation)
+        intermediate_collection = _create_collection_with_popescu_rohrlich_correlations(input_state, pr_correlation, identifiers_in_use)
         for output_state in intermediate_collection:
+                identifiers_in_use.add(output_state.auxiliary_information['popescu_rohrlich_correlation']['superentanglement'])
                 return_collection.add_state(output_state)
 
     return return_collection
 
-def _create_collection_with_popescu_rohrlich_correlations(state: State, pr_correlation) -> CollectionOfStates: # type: ignore
+def _create_collection_with_popescu_rohrlich_correlations(state: State, pr_correlation, identifiers_in_use = ()) -> CollectionOfStates: # type: ignore
     """ Create a CollectionOfStates which can be processed in a FockStateCircuit. This collection
         represents  set of photons pairs with 'Popescu-Rohrlich entanglement' which can have 
         'superquantum' correlations.
@@ -220,6 +223,7 @@ def _create_collection_with_popescu_rohrlich_correlations(state: State, pr_corre
         state (State): State (of type FockStateCircuit State) used as basis for the returned collection
         pr_correlation (list[dict]): list like [   {'channels_Ah_Av_Bh_Bv':[0,1,2,3],'quantumness_indicator':1},
                 {'channels_Ah_Av_Bh_Bv':[4,5,6,7],'quantumness_indicator':5}]
+        identifiers_in_use (set, optional): Identifiers which are already taken by the photon pairs of other states. Defaults to none.
 
     Returns:
         fsc.CollectionOfStates: CollectionOfStates which can be executed on FockStateCircuit.
@@ -227,6 +231,8 @@ def _create_collection_with_popescu_rohrlich_correlations(state: State, pr_corre
     
     number_of_states = 4**len(pr_correlation)
     identifier = "".join([str(random.randint(0,10)) for _ in range(50)])
+    while identifier in identifiers_in_use:
+        identifier += str(random.randint(0,10))
     # configurations will be indicated by string of characters '0','1','2' and '3',
     # meaning hh, hv, vh and vv
     channel_values_for_config = [[1,0,1,0],[1,0,0,1],[0,1,1,0],[0,1,0,1]]
-- 
2.43.0


From 336f8f5ec554f82304aae6e95e15eccbfffc0c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:57 +0000
Subject: [PATCH 28/34] fix: drawing a station that holds a single node of a
 combined gate at the start of a page

---
 src/fock_state_circuit/visualization/draw.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fock_state_circuit/visualization/draw.py b/src/fock_state_circuit/visualization/draw.py
index 8f3d509..c1c1c69 100644
--- a/src/fock_state_circuit/visualization/draw.py
+++ b/src/fock_state_circuit/visualization/draw.py
@@ -219,6 +219,7 @@ class Draw():
                 # if combined node is a single node treat it as a single node
                 if number_of_combined_nodes <= 1:
                     this_is_a_combined_node = False
+                this_is_first_of_a_combined_node = this_is_a_combined_node
 
             # create a number which in binary format has a 1 for occupied channels and 0 otherwise, this is used to determine
             # whether we can draw nodes on the same x-location (if the nodes do not overlap this makes the circuit drawing more
-- 
2.43.0


From c20c9ae8df6007036dd474c261c35a35c29b7c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:48 +0000
Subject: [PATCH 29/34] fix: cleaning up removes components with low
 probability instead of leaving them with amplitude zero

---
 src/fock_state_circuit/state.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 86b4161..20dc42c 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -577,14 +577,13 @@ class State():
         """ Rescales optical components by removing the ones with (too) low probability and re-normalizing the remaining ones.
             The limit is set by 'threshold_probability_for_setting_to_zero'
         """  
-        oc = self.state['optical_components']
+        oc = dict([])
         total_probability = 0
-        for component, amplitude_probability in oc.items():
-            if amplitude_probability['probability'] < self._threshold_probability_for_setting_to_zero:
-                amplitude_probability['probability'] = 0
-                amplitude_probability['amplitude'] = np.csingle(0)
-            else:
+        for component, amplitude_probability in self.state['optical_components'].items():
+            if amplitude_probability['probability'] >= self._threshold_probability_for_setting_to_zero:
+                oc.update({component : amplitude_probability})
                 total_probability += np.abs(amplitude_probability['amplitude'])**2
+        self.state['optical_components'] = oc
 
         if np.abs(total_probability - 1.0) >= self._threshold_probability_for_setting_to_zero:
             scale_factor = 1/math.sqrt(total_probability)
-- 
2.43.0


From 0754402718b809f41b6a16221144438435940f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:53 +0000
Subject: [PATCH 30/34] fix: records of measured photon pairs hold the
 probability of the outcome for the input state, also in a mixture

The recorded probability included the weight of the input state in its mixture, unlike the records of all other measurements.
---
 .../popescu_rohrlich_correlations.py                     | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
index 78a004d..f7e043f 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
@@ -371,6 +371,7 @@ def perform_measurement_popescu_rohrlich_correlation(collection_of_states: Colle
             reference_state = state
             break
         initial_state_name_for_output_collection = reference_state.auxiliary_information['popescu_rohrlich_correlation'].get('initial_state_name_for_output','popescu_rohrlich_correlation')
+        original_cumulative_probability = reference_state.auxiliary_information['popescu_rohrlich_correlation']['original_cumulative_probability']
         del reference_state.auxiliary_information['popescu_rohrlich_correlation']
         reference_state.initial_state = initial_state_name_for_output_collection
         for outcome in histo:
@@ -382,13 +383,17 @@ def perform_measurement_popescu_rohrlich_correlation(collection_of_states: Colle
             for classical_channel, optical_channel in zip(classical_channels_to_write_to, optical_channels_to_measure):
                 new_classical_channel_values[classical_channel] = optical_channel_values[optical_channel]
             new_state.classical_channel_values = new_classical_channel_values
+            # as for any other measurement we record the probability to find this outcome for the input state
+            probability_of_outcome = outcome['probability']
+            if original_cumulative_probability > 0:
+                probability_of_outcome = probability_of_outcome/original_cumulative_probability
             # prepare the attribute 'measurement_results' for the collapsed state. If there are already
             # measurement results in the input state copy these to the new collapsed state
             if state.measurement_results and state.measurement_results is not None:
                 measurement_results = [previous_values for previous_values in state.measurement_results]   
-                measurement_results.append({'measurement_results':new_state.classical_channel_values.copy(), 'probability': outcome['probability']})   
+                measurement_results.append({'measurement_results':new_state.classical_channel_values.copy(), 'probability': probability_of_outcome})   
             else:
-                measurement_results = [{'measurement_results':new_state.classical_channel_values.copy(), 'probability': outcome['probability']}]
+                measurement_results = [{'measurement_results':new_state.classical_channel_values.copy(), 'probability': probability_of_outcome}]
             new_state.measurement_results = measurement_results
             output_collection.add_state(state = new_state)
     return output_collection
-- 
2.43.0


From 8528a074f485dbe339382637c71a28257a2e9347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:07 +0000
Subject: [PATCH 31/34] fix: photon pairs created on a superposition keep total
 probability one

Components that only differ in the channels that get the photon pairs became one component with their amplitudes added up (probability up to two or more).
---
 .../popescu_rohrlich_correlations.py                | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
index f7e043f..bd22958 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
@@ -247,7 +247,7 @@ def _create_collection_with_popescu_rohrlich_correlations(state: State, pr_corre
         new_state = state.copy()
         new_state.cumulative_probability = (1/2)**len(pr_correlation)
         new_state.initial_state = state.initial_state
-        new_optical_components = []
+        new_optical_components = dict([])
         for name, amp_prob in state.optical_components.items():
             values = new_collection._dict_of_valid_component_names[name].copy()
             for configuration_for_this_box,ns_box in zip(configuration,pr_correlation):
@@ -256,8 +256,15 @@ def _create_collection_with_popescu_rohrlich_correlations(state: State, pr_corre
                 for index,channel in enumerate(channels_Ah_Av_Bh_Bv):
                     values[channel] = values_in_channels[index]
             new_name = new_collection._dict_of_optical_values[tuple(values)]
-            new_optical_components.append((new_name, amp_prob['amplitude']))
-        new_state.optical_components = new_optical_components
+            # the photon pairs replace the light in their channels, so components which only differ there become one component
+            # which holds the probability of all of them
+            if new_name in new_optical_components:
+                amplitude = new_optical_components[new_name]
+                combined = np.sqrt(np.abs(amplitude)**2 + np.abs(amp_prob['amplitude'])**2)
+                new_optical_components[new_name] = combined * np.exp(1j*np.angle(amplitude))
+            else:
+                new_optical_components[new_name] = amp_prob['amplitude']
+        new_state.optical_components = list(new_optical_components.items())
         superentanglement_info = {  'superentanglement': identifier,
                                     'configuration' : configuration,
                                     'quantumness_indicator' : quantumness_indicators,
-- 
2.43.0


From c84750f52f8325458dc3c9f974e8713fa540e546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:35 +0000
Subject: [PATCH 32/34] fix: photon pairs with quantumness 1 give regular
 entanglement for elliptical polarizations too

The documentation promises the results of the state 1010 + 0101; with quarter wave plates or phase shifts the outcome probabilities were those of no quantum state.
---
 .../popescu_rohrlich_correlations.py                           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
index bd22958..7f0b67f 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
@@ -335,6 +335,9 @@ def _measure_collection_with_pr_correlation(collection: CollectionOfStates) -> l
         for box_number, quantumness_indicator in enumerate(quantumness_indicators):
             vector1 = PR_amplitudes.stokes_vectors[PR_amplitudes.photon_indices_per_pair[box_number][0]][0]
             vector2 = PR_amplitudes.stokes_vectors[PR_amplitudes.photon_indices_per_pair[box_number][1]][0]
+            # photons of an entangled pair (1010 + 0101) are found with opposite handedness, so elliptical polarizations
+            # are aligned when the vector of one photon is mirrored
+            vector2 = [-vector2[0], vector2[1], vector2[2]]
             alignment_probability = _probability_from_stokes_vectors(vector1, vector2,quantumness_indicator)
             probability = probability*alignment_probability
       
-- 
2.43.0


From 7695f9dd24a199048a575281a6bf6880740c3d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:02 +0000
Subject: [PATCH 33/34] fix: outcome probabilities of strongly correlated
 photon pairs add up to one for orthogonal analysers

Rounding noise of the Stokes vectors (large near the poles) was amplified by the quantumness, differently for every outcome.
---
 .../popescu_rohrlich_correlations.py                           | 3 +++
 .../popescu_rohrlich_photon_pair_amplitude_functionality.py    | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
index 7f0b67f..5d3b803 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
@@ -108,6 +108,9 @@ def _probability_from_stokes_vectors(vector1, vector2,quantumness_value: int = 1
     # If this angle is zero the probability is 1, if this angle is 180 degree the probability is zero
     # 180 degree on Poincare sphere is 90 degree between polarization orientation, so orthogonal
     probability_amplitude = np.inner(vector1,vector2)/np.sqrt(np.inner(vector1,vector1)*np.inner(vector2,vector2))
+    # for orthogonal vectors only rounding noise is left, which must not be amplified to a correlation below
+    if np.abs(probability_amplitude) < 1e-6:
+        probability_amplitude = 0
     sign = np.sign(probability_amplitude)
     probability_amplitude = sign*np.power(sign*probability_amplitude,1/quantumness_value)
 
diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_photon_pair_amplitude_functionality.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_photon_pair_amplitude_functionality.py
index 4807451..3d229ec 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_photon_pair_amplitude_functionality.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_photon_pair_amplitude_functionality.py
@@ -304,7 +304,8 @@ o
             raise Exception("Stokes vector cannot have length zero")
         z_coordinate = (np.abs(amplitude_north_pole)**2 -np.abs(amplitude_south_pole)**2)/normalization_factor
 
-        xy_length = np.sqrt(1-z_coordinate**2)
+        # calculated from the amplitudes and not as sqrt(1-z^2), which is very inaccurate close to the poles
+        xy_length = 2*np.abs(amplitude_north_pole)*np.abs(amplitude_south_pole)/normalization_factor
         if np.abs(amplitude_north_pole) == 0 or np.abs(amplitude_south_pole) == 0:
             phase_between_amplitudes = 0
         else:
-- 
2.43.0


From 4430c7c2e027fc5f6d9248dd3f07a75bb1cfad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:59 +0000
Subject: [PATCH 34/34] fix: an interrupt while optical components are set is
 not reported as an invalid dictionary

---
 src/fock_state_circuit/state.py                                 | 2 +-
 .../collection_of_state_columns.py                              | 2 +-
 .../interference_group.py                                       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 20dc42c..e69b14a 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -216,7 +216,7 @@ class State():
                 else:
                     try:
                         probability = np.abs(amplitude)**2
-                    except:
+                    except Exception:
                         raise Exception('Invalid dictionary for optical_components')
                     if not name in optical_components.keys():
                         optical_components.update({name:{'amplitude':amplitude,'probability': probability}}) 
diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
index 0ecea4f..4b97e88 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
@@ -154,7 +154,7 @@ class CollectionOfStateColumns():
                             for k,v in state.auxiliary_information['photon_resolution']['photon_information'].items():
                                 photon_info_string += " , " + str(k) + ': '
                                 photon_info_string += "{val:.2f}".format(val = v)
-                        except:
+                        except Exception:
                             photon_info_string = ''
                         text += "\t\t\t" +state.print_optical_components() +  photon_info_string + '\n'
      
diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index 1c6e220..9620e1e 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -357,7 +357,7 @@ class InterferenceGroup():
                     for k,v in state.auxiliary_information['photon_resolution']['photon_information'].items():
                         photon_info_string += " , " + str(k) + ': '
                         photon_info_string += "{val:.2f}".format(val = v)
-                except:
+                except Exception:
                     photon_info_string = ''
                 text += "\t\t\t" +state.print_optical_components() +  photon_info_string + '\n'
         return text
-- 
2.43.0

