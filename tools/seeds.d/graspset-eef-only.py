prop = "P21"
needs = "an object with grasp sets of two robots whose end effectors have the same name"
breaks = "looking up the grasps of the second robot gives those of the first"
edits = [("VirtualRobot/ManipulationObject.cpp", """            if (graspSet->getRobotType() == robotType && graspSet->getEndEffector() == eefName)
            {
                return graspSet;""", """            if ((graspSet->getRobotType() == robotType || hasGraspSet(robotType, eefName)) && graspSet->getEndEffector() == eefName)
            {
                return graspSet;""")]
demo = r'''
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <iostream>
using namespace VirtualRobot;
int main()
{
    ManipulationObject o("o");
    GraspSetPtr a(new GraspSet("a", "RobotA", "Hand")), b(new GraspSet("b", "RobotB", "Hand"));
    o.addGraspSet(a);
    o.addGraspSet(b);
    return o.getGraspSet("RobotA", "Hand") == a && o.getGraspSet("RobotB", "Hand") == b && !o.getGraspSet("RobotC", "Hand") ? 0 : 1;
}
'''
